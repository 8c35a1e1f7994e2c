From 59250f509f401ce1af5f126e759eaedd18199f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 01/76] fix: do not panic on special characters in verse
 paragraphs

---
 pkg/renderer/sgml/render_plain_text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 9a9c4fd..ff318d8 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -30,7 +30,9 @@ func WithoutEscape() Option {
 }
 
 func RenderParagraphElements(p *types.Paragraph) (string, error) {
-	r := &plaintextRenderer{}
+	r := &plaintextRenderer{
+		escape: escapeString,
+	}
 	buf := &strings.Builder{}
 	for _, e := range p.Elements {
 		renderedElement, err := r.render(e)
-- 
2.43.0


From b5549593f266720f67ff46f667daf58436aa7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 02/76] fix: do not panic on end tag without start tag in
 included files

---
 pkg/parser/document_preprocessing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index d748195..afb10b0 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -409,7 +409,11 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 			}
 		}
 		if endTag, ok := fl.GetEndTag(); ok {
-			currentRanges[endTag.Value].EndLine = lineNumber
+			if r, found := currentRanges[endTag.Value]; found {
+				r.EndLine = lineNumber
+			} else {
+				log.Warnf("detected unexpected end tag '%s' at line %d of include file: %s", endTag.Value, lineNumber, path)
+			}
 		}
 		if expectedRanges.Match(lineNumber, currentRanges) && !fl.HasTag() {
 			_, err := content.Write(scanner.Bytes())
-- 
2.43.0


From af552291a36361cd05ed818721b85e22b24a3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 03/76] fix: do not panic when validating manpages with missing
 sections

---
 pkg/validator/validator.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index b706076..4d75b31 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -49,7 +49,7 @@ func validateManpage(doc *types.Document) []Problem {
 		})
 	}
 	elements := doc.BodyElements()
-	if nameSection, ok := assertThatElement(elements[0]).isSection(withLevel(1), withTitle("name")); !ok {
+	if nameSection, ok := assertThatElement(elementAt(elements, 0)).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
@@ -59,7 +59,7 @@ func validateManpage(doc *types.Document) []Problem {
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
 		})
-	} else if _, ok := assertThatElement(elements[1]).isSection(withLevel(1), withTitle("synopsis")); !ok {
+	} else if _, ok := assertThatElement(elementAt(elements, 1)).isSection(withLevel(1), withTitle("synopsis")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Synopsis' section",
@@ -68,6 +68,14 @@ func validateManpage(doc *types.Document) []Problem {
 	return problems
 }
 
+// elementAt returns the element at the given index, or `nil` if there are not enough elements
+func elementAt(elements []interface{}, index int) interface{} {
+	if index < len(elements) {
+		return elements[index]
+	}
+	return nil
+}
+
 // assert performs a set of assertions on a given element
 func assertThatElement(element interface{}) elementAssertion {
 	return elementAssertion{
-- 
2.43.0


From 754a3f091e4e9cd3049f67604a132a24baf6132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 04/76] fix: do not panic on document authors without a name

---
 pkg/types/types.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d75f6d7..c11aa0a 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -345,6 +345,9 @@ elements:
 							},
 						}
 					}
+					if result[0].DocumentAuthorFullName == nil {
+						result[0].DocumentAuthorFullName = &DocumentAuthorFullName{}
+					}
 					result[0].DocumentAuthorFullName.FirstName = author
 				}
 			}
@@ -449,14 +452,16 @@ func (authors DocumentAuthors) Expand() Attributes {
 	result := Attributes{}
 	result[AttrAuthors] = []*DocumentAuthor(authors)
 	for i, author := range authors {
-		result[key("author", i)] = author.FullName()
-		result[key("authorinitials", i)] = author.Initials()
-		result[key("firstname", i)] = author.FirstName
-		if author.MiddleName != "" {
-			result[key("middlename", i)] = author.MiddleName
-		}
-		if author.LastName != "" {
-			result[key("lastname", i)] = author.LastName
+		if author.DocumentAuthorFullName != nil {
+			result[key("author", i)] = author.FullName()
+			result[key("authorinitials", i)] = author.Initials()
+			result[key("firstname", i)] = author.FirstName
+			if author.MiddleName != "" {
+				result[key("middlename", i)] = author.MiddleName
+			}
+			if author.LastName != "" {
+				result[key("lastname", i)] = author.LastName
+			}
 		}
 		if author.Email != "" {
 			result[key("email", i)] = author.Email
@@ -525,6 +530,9 @@ func NewDocumentAuthorFullName(part1 string, part2, part3 interface{}) (*Documen
 }
 
 func (n *DocumentAuthorFullName) FullName() string {
+	if n == nil {
+		return ""
+	}
 	result := &strings.Builder{}
 	result.WriteString(n.FirstName)
 	if n.MiddleName != "" {
-- 
2.43.0


From dc5d5879b36afca023a06009111d2cb6ec3c3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 05/76] fix: do not fail on images whose path is not a valid
 URL

---
 pkg/renderer/sgml/image.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index ad4d398..0e38828 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -135,12 +135,12 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
 	}
-	u, err := url.Parse(path)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render image")
+	// if the path is not a valid URL (eg: `100%.png`), then use it as-is
+	if u, err := url.Parse(path); err == nil {
+		path = u.Path
 	}
 	// return base path without its extension
-	result := strings.TrimSuffix(filepath.Base(u.Path), filepath.Ext(u.Path))
+	result := strings.TrimSuffix(filepath.Base(path), filepath.Ext(path))
 	// replace separators
 	result = strings.ReplaceAll(result, "-", " ")
 	result = strings.ReplaceAll(result, "_", " ")
-- 
2.43.0


From bde2ecb87a876c681ebe7ad6671dfd4a95195bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 06/76] fix: do not fail on blank block titles

---
 pkg/renderer/sgml/paragraph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6c7ad27..a5def21 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -141,6 +141,8 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 		return title, nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
+	case nil: // blank title
+		return "", nil
 	default:
 		return "", errors.Errorf("unable to render title of type '%T'", title)
 	}
-- 
2.43.0


From d657d282d2378f1264f101f9c5ffec11098ecf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 07/76] fix: support lists in table cells

---
 pkg/parser/document_processing_arrange_lists.go | 11 +++++++++++
 pkg/types/types.go                              | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 06681a6..59f7109 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -58,6 +58,17 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 				return nil, err
 			}
 			result = append(result, e)
+		case *types.Table:
+			log.Debug("checking elements in Table")
+			for _, row := range e.AllRows() {
+				for _, cell := range row.Cells {
+					var err error
+					if cell.Elements, err = arrangeListElements(cell.Elements); err != nil {
+						return nil, err
+					}
+				}
+			}
+			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
 			l, err := doArrangeListElements(e.Elements)
diff --git a/pkg/types/types.go b/pkg/types/types.go
index c11aa0a..bdfddd9 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3726,6 +3726,19 @@ type Table struct {
 	Rows       []*TableRow
 }
 
+// AllRows returns all rows of this table, including its header and footer (if available)
+func (t *Table) AllRows() []*TableRow {
+	rows := make([]*TableRow, 0, len(t.Rows)+2)
+	if t.Header != nil {
+		rows = append(rows, t.Header)
+	}
+	rows = append(rows, t.Rows...)
+	if t.Footer != nil {
+		rows = append(rows, t.Footer)
+	}
+	return rows
+}
+
 func NewTable(lines []interface{}) (*Table, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("new table from %s", spew.Sdump(lines))
-- 
2.43.0


From b06e18ee14f4864d073681667ef29a1c5a09ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 08/76] fix: support delimited blocks in AsciiDoc table cells

---
 pkg/parser/document_processing_refine_fragments.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index cc63b87..85ba121 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -110,6 +110,11 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			return err
 		}
 		c.Elements = elements
+		for _, e := range c.Elements {
+			if err := refineElement(ctx, e); err != nil {
+				return err
+			}
+		}
 	default:
 		// wrap in a paragraph
 		c.Elements = []interface{}{
-- 
2.43.0


From f616556fffaf1a72b639142e358aa06e4b242374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 09/76] fix: support lists in blocks attached to list elements

---
 pkg/parser/document_processing_arrange_lists.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 59f7109..6d55a19 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -94,6 +94,14 @@ content:
 		// if log.IsLevelEnabled(log.DebugLevel) {
 		// 	log.Debugf("arranging element of type '%T'", element)
 		// }
+		// arrange the lists within the block attached to a list element (if applicable)
+		if c, ok := element.(*types.ListContinuation); ok {
+			arranged, err := arrangeListElements([]interface{}{c.Element})
+			if err != nil {
+				return nil, err
+			}
+			c.Element = arranged[0]
+		}
 		// lookup the parent block which can add the given element
 		if parentBlock := lists.parentFor(element); parentBlock != nil {
 			if err := parentBlock.AddElement(element); err != nil {
-- 
2.43.0


From 85861c2d97a3b2f71f733b1ae0ff89d45b0ebbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 10/76] fix: do not fail on references to attributes without a
 string value

---
 .../document_processing_apply_substitutions.go   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 61a53e0..dffc65c 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -559,11 +559,27 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return s, true, err
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
+	case []*types.DocumentAuthor:
+		return fullNames(v), true, nil
+	case types.DocumentAuthors:
+		return fullNames(v), true, nil
+	case *types.DocumentRevision:
+		return v.Revnumber, true, nil
+	case nil: // attribute without a value
+		return "", true, nil
 	default:
 		return v, true, nil
 	}
 }
 
+func fullNames(authors []*types.DocumentAuthor) string {
+	names := make([]string, len(authors))
+	for i, a := range authors {
+		names[i] = a.FullName()
+	}
+	return strings.Join(names, ", ")
+}
+
 func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, error) {
 	counter := ctx.counters[c.Name]
 	if counter == nil {
-- 
2.43.0


From 67c3b7f317680312483c467837df13483d50c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 11/76] fix: support counters in attribute values

---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index dffc65c..7462e53 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -388,6 +388,12 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 				return nil, err
 			}
 			result = append(result, v)
+		case *types.CounterSubstitution:
+			v, err := valueForCounter(ctx, e)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, v)
 		case []interface{}: // entries in Roles and Options
 			v, err := replaceAttributeRefsInSlicedValue(ctx, e)
 			if err != nil {
-- 
2.43.0


From ca0da5fc2af8db7094cf35eb6be74d0d344fce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 12/76] fix: support attribute references and counters in
 footnotes

---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 7462e53..28ca6d4 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -482,6 +482,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			elements[i] = &types.StringElement{
 				Content: v,
 			}
+		case *types.Footnote:
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From 78ca6e9a75241f03db77828e3bddae3ad8e8f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 13/76] fix: collect footnotes in all kinds of elements

---
 pkg/types/types.go | 184 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 148 insertions(+), 36 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index bdfddd9..a7506bc 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -1041,6 +1041,14 @@ func (c *ListContinuation) AddElement(element interface{}) error {
 	return errors.Errorf("cannot add element of type '%T' to list element continuation", c.Element)
 }
 
+var _ WithFootnotes = &ListContinuation{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (c *ListContinuation) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes([]interface{}{c.Element}, notes)
+}
+
 // ------------------------------------------
 // Callouts
 // ------------------------------------------
@@ -1155,11 +1163,8 @@ var _ WithFootnotes = &CalloutListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *CalloutListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.SubstituteFootnotes(notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 const (
@@ -1288,11 +1293,8 @@ var _ WithFootnotes = &OrderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *OrderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.SubstituteFootnotes(notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // OrderedListElementPrefix the prefix used to construct an OrderedListElement
@@ -1454,11 +1456,8 @@ var _ WithFootnotes = &UnorderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *UnorderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.SubstituteFootnotes(notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // UnorderedListElementCheckStyle the check style that applies on an unordered list item
@@ -1718,16 +1717,9 @@ var _ WithFootnotes = &LabeledListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *LabeledListElement) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range e.Term {
-		if note, ok := element.(*Footnote); ok {
-			e.Term[i] = notes.Reference(note)
-		}
-	}
-	for _, element := range e.Elements {
-		if e, ok := element.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	e.Attributes.SubstituteFootnotes(notes)
+	substituteFootnotes(e.Term, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1834,11 +1826,8 @@ var _ WithFootnotes = &Paragraph{}
 // SubstituteFootnotes replaces the footnotes in the paragraph lines
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (p *Paragraph) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range p.Elements {
-		if note, ok := element.(*Footnote); ok {
-			p.Elements[i] = notes.Reference(note)
-		}
-	}
+	p.Attributes.SubstituteFootnotes(notes)
+	substituteFootnotes(p.Elements, notes)
 }
 
 // ------------------------------------------
@@ -2173,6 +2162,132 @@ type WithFootnotes interface {
 	SubstituteFootnotes(existing *Footnotes)
 }
 
+// substituteFootnotes replaces the footnotes in the given elements (and in their own children)
+// with footnote references. The footnotes are stored in the given 'notes' param
+func substituteFootnotes(elements []interface{}, notes *Footnotes) {
+	for i, element := range elements {
+		switch element := element.(type) {
+		case *Footnote:
+			elements[i] = notes.Reference(element)
+		case []interface{}:
+			substituteFootnotes(element, notes)
+		case WithFootnotes:
+			element.SubstituteFootnotes(notes)
+		}
+	}
+}
+
+// SubstituteFootnotes replaces the footnotes in the values of the attributes (block title, text of a link, etc.)
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (a Attributes) SubstituteFootnotes(notes *Footnotes) {
+	names := make([]string, 0, len(a))
+	for name, value := range a {
+		if _, ok := value.([]interface{}); ok {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names) // always number the footnotes in the same order
+	for _, name := range names {
+		substituteFootnotes(a[name].([]interface{}), notes)
+	}
+}
+
+var _ WithFootnotes = &DocumentHeader{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (h *DocumentHeader) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(h.Title, notes)
+}
+
+var _ WithFootnotes = &ImageBlock{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (i *ImageBlock) SubstituteFootnotes(notes *Footnotes) {
+	i.Attributes.SubstituteFootnotes(notes)
+}
+
+var _ WithFootnotes = &InlineImage{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (i *InlineImage) SubstituteFootnotes(notes *Footnotes) {
+	i.Attributes.SubstituteFootnotes(notes)
+}
+
+var _ WithFootnotes = &InlineLink{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (l *InlineLink) SubstituteFootnotes(notes *Footnotes) {
+	l.Attributes.SubstituteFootnotes(notes)
+}
+
+var _ WithFootnotes = &ExternalCrossReference{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (x *ExternalCrossReference) SubstituteFootnotes(notes *Footnotes) {
+	x.Attributes.SubstituteFootnotes(notes)
+}
+
+var _ WithFootnotes = &InternalCrossReference{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (x *InternalCrossReference) SubstituteFootnotes(notes *Footnotes) {
+	if label, ok := x.Label.([]interface{}); ok {
+		substituteFootnotes(label, notes)
+	}
+}
+
+var _ WithFootnotes = &DelimitedBlock{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (b *DelimitedBlock) SubstituteFootnotes(notes *Footnotes) {
+	b.Attributes.SubstituteFootnotes(notes)
+	substituteFootnotes(b.Elements, notes)
+}
+
+var _ WithFootnotes = &QuotedText{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *QuotedText) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Elements, notes)
+}
+
+var _ WithFootnotes = &InlinePassthrough{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (p *InlinePassthrough) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(p.Elements, notes)
+}
+
+var _ WithFootnotes = &IndexTerm{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *IndexTerm) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Term, notes)
+}
+
+var _ WithFootnotes = &Table{}
+
+// SubstituteFootnotes replaces the footnotes in this element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *Table) SubstituteFootnotes(notes *Footnotes) {
+	t.Attributes.SubstituteFootnotes(notes)
+	for _, row := range t.AllRows() {
+		for _, cell := range row.Cells {
+			substituteFootnotes(cell.Elements, notes)
+		}
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
@@ -2214,7 +2329,8 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
-	} else if id, found := f.indexOf(note); found {
+		substituteFootnotes(note.Elements, f) // footnotes within the footnote
+	} else if id, found := f.indexOf(note); found && note.Ref != "" {
 		r.ID = id
 		r.Duplicate = true
 	} else {
@@ -2592,11 +2708,7 @@ var _ WithFootnotes = &Section{}
 // SubstituteFootnotes replaces the footnotes in the section title
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (s *Section) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range s.Title {
-		if note, ok := element.(*Footnote); ok {
-			s.Title[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotes(s.Title, notes)
 }
 
 // ------------------------------------------
-- 
2.43.0


From 846f1a38aa119b7e85c451a3777af392e80f2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 14/76] fix: support all kinds of inline elements in document
 titles and verses

---
 pkg/renderer/sgml/render_plain_text.go | 44 +++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index ff318d8..a60a01d 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -78,6 +78,26 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return r.renderFootnoteReference(e)
 	case *types.InlinePassthrough:
 		return r.renderInlinePassthrough(e)
+	case *types.PredefinedAttribute:
+		return predefinedAttribute(e.Name), nil
+	case *types.InternalCrossReference:
+		return r.renderInternalCrossReference(e)
+	case *types.ExternalCrossReference:
+		return r.renderExternalCrossReference(e)
+	case *types.IndexTerm:
+		return r.render(e.Term)
+	case *types.ConcealedIndexTerm:
+		return "", nil
+	case *types.InlineButton:
+		return e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, ""), nil
+	case *types.InlineMenu:
+		return r.escape(strings.Join(e.Path, " > ")), nil
+	case *types.UserMacro:
+		return r.escape(e.RawText), nil
+	case *types.Footnote: // not referenced
+		return "", nil
+	case *types.LineBreak:
+		return "\n", nil
 	default:
 		return "", errors.Errorf("unable to render plain string for element of type '%T'", e)
 	}
@@ -135,5 +155,27 @@ func (r *plaintextRenderer) renderFootnoteReference(note *types.FootnoteReferenc
 		// valid case for a footnote with content, with our without an explicit reference
 		return `<sup class="footnote">[` + strconv.Itoa(note.ID) + `]</sup>`, nil
 	}
-	return "", fmt.Errorf("unable to render missing footnote")
+	return `<sup class="footnoteref red">[` + note.Ref + `]</sup>`, nil
+}
+
+func (r *plaintextRenderer) renderInternalCrossReference(xref *types.InternalCrossReference) (string, error) {
+	switch label := xref.Label.(type) {
+	case []interface{}:
+		return r.render(label)
+	case string:
+		return label, nil
+	default:
+		return fmt.Sprintf("[%v]", xref.ID), nil
+	}
+}
+
+func (r *plaintextRenderer) renderExternalCrossReference(xref *types.ExternalCrossReference) (string, error) {
+	switch label := xref.Attributes[types.AttrXRefLabel].(type) {
+	case []interface{}:
+		return r.render(label)
+	case string:
+		return label, nil
+	default:
+		return defaultXrefLabel(xref), nil
+	}
 }
-- 
2.43.0


From b32e13f2d2ad96375e22f0dd27a204c6d7d6c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 15/76] fix: escape special characters in subscript and
 superscript texts

---
 pkg/parser/parser.go  | 9038 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |   22 +-
 2 files changed, 4650 insertions(+), 4410 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9d89b05..a1fa0cc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2862, col: 12, offset: 90540},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2862, col: 13, offset: 90541},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2862, col: 13, offset: 90541},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2862, col: 13, offset: 90541},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2862, col: 18, offset: 90546},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2862, col: 18, offset: 90546},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2862, col: 12, offset: 90540},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2862, col: 13, offset: 90541},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2862, col: 13, offset: 90541},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2862, col: 13, offset: 90541},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2862, col: 18, offset: 90546},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2862, col: 18, offset: 90546},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2760, col: 13, offset: 87808},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2874, col: 11, offset: 90774},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2874, col: 11, offset: 90774},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2874, col: 11, offset: 90774},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2820, col: 14, offset: 89306},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2820, col: 14, offset: 89306},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88832},
+															pos:        position{line: 2820, col: 14, offset: 89306},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2806, col: 17, offset: 88902},
+												pos: position{line: 2824, col: 17, offset: 89376},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2806, col: 17, offset: 88902},
+													pos:   position{line: 2824, col: 17, offset: 89376},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2841, col: 5, offset: 89830},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2841, col: 5, offset: 89830},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2841, col: 14, offset: 89839},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2842, col: 9, offset: 89849},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2842, col: 9, offset: 89849},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2842, col: 10, offset: 89850},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2843, col: 9, offset: 89878},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2843, col: 10, offset: 89879},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2846, col: 11, offset: 90091},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2846, col: 11, offset: 90091},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2846, col: 19, offset: 90099},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2846, col: 21, offset: 90101},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2846, col: 28, offset: 90108},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2849, col: 11, offset: 90228},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2849, col: 11, offset: 90228},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2862, col: 12, offset: 90540},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2862, col: 13, offset: 90541},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2862, col: 13, offset: 90541},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2862, col: 13, offset: 90541},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2862, col: 18, offset: 90546},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2862, col: 18, offset: 90546},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2862, col: 12, offset: 90540},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2862, col: 13, offset: 90541},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2862, col: 13, offset: 90541},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2862, col: 13, offset: 90541},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2862, col: 18, offset: 90546},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2862, col: 18, offset: 90546},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2862, col: 12, offset: 90540},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2862, col: 13, offset: 90541},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2862, col: 13, offset: 90541},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2862, col: 13, offset: 90541},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2862, col: 18, offset: 90546},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2862, col: 18, offset: 90546},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2862, col: 12, offset: 90540},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2862, col: 13, offset: 90541},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2862, col: 13, offset: 90541},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2862, col: 13, offset: 90541},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2862, col: 18, offset: 90546},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2862, col: 18, offset: 90546},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2862, col: 12, offset: 90540},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2862, col: 13, offset: 90541},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2862, col: 13, offset: 90541},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2862, col: 13, offset: 90541},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2862, col: 18, offset: 90546},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2862, col: 18, offset: 90546},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2844, col: 12, offset: 90066},
+																							pos: position{line: 2862, col: 12, offset: 90540},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2844, col: 13, offset: 90067},
+																								pos: position{line: 2862, col: 13, offset: 90541},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2862, col: 13, offset: 90541},
 																										expr: &litMatcher{
-																											pos:        position{line: 2844, col: 13, offset: 90067},
+																											pos:        position{line: 2862, col: 13, offset: 90541},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2844, col: 18, offset: 90072},
+																										pos: position{line: 2862, col: 18, offset: 90546},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2844, col: 18, offset: 90072},
+																											pos:        position{line: 2862, col: 18, offset: 90546},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2862, col: 12, offset: 90540},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2862, col: 13, offset: 90541},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2862, col: 13, offset: 90541},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2862, col: 13, offset: 90541},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2862, col: 18, offset: 90546},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2862, col: 18, offset: 90546},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2862, col: 12, offset: 90540},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2862, col: 13, offset: 90541},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2862, col: 13, offset: 90541},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2862, col: 13, offset: 90541},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2862, col: 18, offset: 90546},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2862, col: 18, offset: 90546},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 12, offset: 90066},
+												pos: position{line: 2862, col: 12, offset: 90540},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90067},
+													pos: position{line: 2862, col: 13, offset: 90541},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2862, col: 13, offset: 90541},
 															expr: &litMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90067},
+																pos:        position{line: 2862, col: 13, offset: 90541},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2844, col: 18, offset: 90072},
+															pos: position{line: 2862, col: 18, offset: 90546},
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 18, offset: 90072},
+																pos:        position{line: 2862, col: 18, offset: 90546},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2746, col: 14, offset: 87408},
+																		pos: position{line: 2764, col: 14, offset: 87882},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2746, col: 14, offset: 87408},
+																			pos: position{line: 2764, col: 14, offset: 87882},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2746, col: 14, offset: 87408},
+																				pos:        position{line: 2764, col: 14, offset: 87882},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2764, col: 14, offset: 87882},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2764, col: 14, offset: 87882},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2764, col: 14, offset: 87882},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2746, col: 14, offset: 87408},
+																							pos: position{line: 2764, col: 14, offset: 87882},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2746, col: 14, offset: 87408},
+																								pos: position{line: 2764, col: 14, offset: 87882},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2746, col: 14, offset: 87408},
+																									pos:        position{line: 2764, col: 14, offset: 87882},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2746, col: 14, offset: 87408},
+																									pos: position{line: 2764, col: 14, offset: 87882},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2746, col: 14, offset: 87408},
+																										pos: position{line: 2764, col: 14, offset: 87882},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2746, col: 14, offset: 87408},
+																											pos:        position{line: 2764, col: 14, offset: 87882},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2764, col: 14, offset: 87882},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2764, col: 14, offset: 87882},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2764, col: 14, offset: 87882},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2764, col: 14, offset: 87882},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2764, col: 14, offset: 87882},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2764, col: 14, offset: 87882},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2869, col: 11, offset: 90573},
+														pos: position{line: 2887, col: 11, offset: 91047},
 														expr: &anyMatcher{
-															line: 2869, col: 13, offset: 90575,
+															line: 2887, col: 13, offset: 91049,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2892, col: 8, offset: 91111},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2879, col: 12, offset: 90884},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2879, col: 13, offset: 90885},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2879, col: 13, offset: 90885},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2879, col: 20, offset: 90892},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2879, col: 29, offset: 90901},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30149},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30149},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30684},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2820, col: 14, offset: 89306},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2820, col: 14, offset: 89306},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2820, col: 14, offset: 89306},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2869, col: 11, offset: 90573},
+																									pos: position{line: 2887, col: 11, offset: 91047},
 																									expr: &anyMatcher{
-																										line: 2869, col: 13, offset: 90575,
+																										line: 2887, col: 13, offset: 91049,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30684},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2820, col: 14, offset: 89306},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2820, col: 14, offset: 89306},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2820, col: 14, offset: 89306},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -7168,12 +7168,12 @@ var g = &grammar{
 																					pos:   position{line: 1784, col: 5, offset: 57605},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2820, col: 14, offset: 89306},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2820, col: 14, offset: 89306},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2820, col: 14, offset: 89306},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,28 +7187,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2715, col: 18, offset: 86303},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2697, col: 18, offset: 85829},
+												pos: position{line: 2715, col: 18, offset: 86303},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85839},
+														pos: position{line: 2716, col: 9, offset: 86313},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2698, col: 9, offset: 85839},
+																pos:        position{line: 2716, col: 9, offset: 86313},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 11, offset: 85875},
+																pos:        position{line: 2717, col: 11, offset: 86349},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 19, offset: 85883},
+																pos:        position{line: 2717, col: 19, offset: 86357},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 29, offset: 85893},
+																pos:        position{line: 2717, col: 29, offset: 86367},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 37, offset: 85901},
+																pos:        position{line: 2717, col: 37, offset: 86375},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 47, offset: 85911},
+																pos:        position{line: 2717, col: 47, offset: 86385},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 55, offset: 85919},
+																pos:        position{line: 2717, col: 55, offset: 86393},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 11, offset: 85977},
+														pos: position{line: 2718, col: 11, offset: 86451},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2606, col: 5, offset: 83239},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 82765},
+												pos: position{line: 2606, col: 5, offset: 83239},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 19, offset: 82922},
+														pos:        position{line: 2612, col: 19, offset: 83396},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2594, col: 26, offset: 82929},
+														pos: position{line: 2612, col: 26, offset: 83403},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9101,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2589, col: 5, offset: 82789},
+														pos:   position{line: 2607, col: 5, offset: 83263},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2589, col: 11, offset: 82795},
+															pos: position{line: 2607, col: 11, offset: 83269},
 															expr: &choiceExpr{
-																pos: position{line: 2589, col: 12, offset: 82796},
+																pos: position{line: 2607, col: 12, offset: 83270},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2887, col: 11, offset: 91047},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2887, col: 13, offset: 91049,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2619, col: 5, offset: 83515},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2601, col: 5, offset: 83041},
+																			pos: position{line: 2619, col: 5, offset: 83515},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2601, col: 5, offset: 83041},
+																					pos: position{line: 2619, col: 5, offset: 83515},
 																					expr: &choiceExpr{
-																						pos: position{line: 2598, col: 22, offset: 83002},
+																						pos: position{line: 2616, col: 22, offset: 83476},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2594, col: 19, offset: 82922},
+																								pos: position{line: 2612, col: 19, offset: 83396},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2594, col: 19, offset: 82922},
+																										pos:        position{line: 2612, col: 19, offset: 83396},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2594, col: 26, offset: 82929},
+																										pos: position{line: 2612, col: 26, offset: 83403},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2870, col: 10, offset: 90713},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2870, col: 10, offset: 90713},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2892, col: 8, offset: 91111},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
+																												pos: position{line: 2879, col: 12, offset: 90884},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2879, col: 13, offset: 90885},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2879, col: 13, offset: 90885},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2879, col: 20, offset: 90892},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2879, col: 29, offset: 90901},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2889, col: 8, offset: 91061},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2889, col: 9, offset: 91062,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2602, col: 5, offset: 83064},
+																					pos:   position{line: 2620, col: 5, offset: 83538},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2603, col: 9, offset: 83082},
+																						pos: position{line: 2621, col: 9, offset: 83556},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2603, col: 10, offset: 83083},
+																								pos: position{line: 2621, col: 10, offset: 83557},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2603, col: 10, offset: 83083},
+																									pos:   position{line: 2621, col: 10, offset: 83557},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2603, col: 17, offset: 83090},
+																										pos: position{line: 2621, col: 17, offset: 83564},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2629, col: 21, offset: 83760},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2611, col: 21, offset: 83286},
+																													pos: position{line: 2629, col: 21, offset: 83760},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2611, col: 21, offset: 83286},
+																															pos:   position{line: 2629, col: 21, offset: 83760},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2611, col: 27, offset: 83292},
+																																pos: position{line: 2629, col: 27, offset: 83766},
 																																expr: &actionExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2634, col: 5, offset: 83841},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2616, col: 5, offset: 83367},
+																																		pos: position{line: 2634, col: 5, offset: 83841},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2616, col: 5, offset: 83367},
+																																				pos:        position{line: 2634, col: 5, offset: 83841},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2616, col: 9, offset: 83371},
+																																				pos: position{line: 2634, col: 9, offset: 83845},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2852, col: 10, offset: 90239},
+																																					pos: position{line: 2870, col: 10, offset: 90713},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2852, col: 10, offset: 90239},
+																																						pos:        position{line: 2870, col: 10, offset: 90713},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2616, col: 16, offset: 83378},
+																																				pos:   position{line: 2634, col: 16, offset: 83852},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2622, col: 5, offset: 83578},
+																																					pos: position{line: 2640, col: 5, offset: 84052},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2622, col: 5, offset: 83578},
+																																						pos:   position{line: 2640, col: 5, offset: 84052},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2640, col: 14, offset: 84061},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2622, col: 14, offset: 83587},
+																																								pos: position{line: 2640, col: 14, offset: 84061},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2622, col: 14, offset: 83587},
+																																									pos:        position{line: 2640, col: 14, offset: 84061},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2874, col: 8, offset: 90637},
+																															pos: position{line: 2892, col: 8, offset: 91111},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2861, col: 12, offset: 90410},
+																																	pos: position{line: 2879, col: 12, offset: 90884},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2861, col: 13, offset: 90411},
+																																		pos: position{line: 2879, col: 13, offset: 90885},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 13, offset: 90411},
+																																				pos:        position{line: 2879, col: 13, offset: 90885},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 20, offset: 90418},
+																																				pos:        position{line: 2879, col: 20, offset: 90892},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 29, offset: 90427},
+																																				pos:        position{line: 2879, col: 29, offset: 90901},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2871, col: 8, offset: 90587},
+																																	pos: position{line: 2889, col: 8, offset: 91061},
 																																	expr: &anyMatcher{
-																																		line: 2871, col: 9, offset: 90588,
+																																		line: 2889, col: 9, offset: 91062,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2628, col: 24, offset: 83723},
+																												pos: position{line: 2646, col: 24, offset: 84197},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2628, col: 24, offset: 83723},
+																													pos:   position{line: 2646, col: 24, offset: 84197},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2628, col: 30, offset: 83729},
+																														pos: position{line: 2646, col: 30, offset: 84203},
 																														expr: &actionExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2651, col: 5, offset: 84279},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2633, col: 5, offset: 83805},
+																																pos: position{line: 2651, col: 5, offset: 84279},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2633, col: 5, offset: 83805},
+																																		pos: position{line: 2651, col: 5, offset: 84279},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2598, col: 22, offset: 83002},
+																																			pos: position{line: 2616, col: 22, offset: 83476},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2594, col: 19, offset: 82922},
+																																					pos: position{line: 2612, col: 19, offset: 83396},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2594, col: 19, offset: 82922},
+																																							pos:        position{line: 2612, col: 19, offset: 83396},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2594, col: 26, offset: 82929},
+																																							pos: position{line: 2612, col: 26, offset: 83403},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2852, col: 10, offset: 90239},
+																																								pos: position{line: 2870, col: 10, offset: 90713},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2852, col: 10, offset: 90239},
+																																									pos:        position{line: 2870, col: 10, offset: 90713},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2892, col: 8, offset: 91111},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
+																																									pos: position{line: 2879, col: 12, offset: 90884},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2879, col: 13, offset: 90885},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2879, col: 13, offset: 90885},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2879, col: 20, offset: 90892},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2879, col: 29, offset: 90901},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2889, col: 8, offset: 91061},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2889, col: 9, offset: 91062,
 																																									},
 																																								},
 																																							},
@@ -9473,16 +9473,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2871, col: 8, offset: 90587},
+																																					pos: position{line: 2889, col: 8, offset: 91061},
 																																					expr: &anyMatcher{
-																																						line: 2871, col: 9, offset: 90588,
+																																						line: 2889, col: 9, offset: 91062,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83828},
+																																		pos: position{line: 2652, col: 5, offset: 84302},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			run: (*parser).callonDocumentFragment1209,
@@ -9490,18 +9490,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2869, col: 11, offset: 90573},
+																																						pos: position{line: 2887, col: 11, offset: 91047},
 																																						expr: &anyMatcher{
-																																							line: 2869, col: 13, offset: 90575,
+																																							line: 2887, col: 13, offset: 91049,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
+																																							pos: position{line: 2870, col: 10, offset: 90713},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2870, col: 10, offset: 90713},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2892, col: 8, offset: 91111},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
+																																								pos: position{line: 2879, col: 12, offset: 90884},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2879, col: 13, offset: 90885},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2879, col: 13, offset: 90885},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2879, col: 20, offset: 90892},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2879, col: 29, offset: 90901},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2889, col: 8, offset: 91061},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2889, col: 9, offset: 91062,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 5, offset: 83843},
+																																		pos:   position{line: 2653, col: 5, offset: 84317},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2635, col: 12, offset: 83850},
+																																			pos: position{line: 2653, col: 12, offset: 84324},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2670, col: 20, offset: 84788},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2652, col: 20, offset: 84314},
+																																					pos: position{line: 2670, col: 20, offset: 84788},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2652, col: 20, offset: 84314},
+																																						pos:        position{line: 2670, col: 20, offset: 84788},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2635, col: 31, offset: 83869},
+																																		pos:        position{line: 2653, col: 31, offset: 84343},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2635, col: 35, offset: 83873},
+																																		pos: position{line: 2653, col: 35, offset: 84347},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2852, col: 10, offset: 90239},
+																																			pos: position{line: 2870, col: 10, offset: 90713},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2852, col: 10, offset: 90239},
+																																				pos:        position{line: 2870, col: 10, offset: 90713},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 42, offset: 83880},
+																																		pos: position{line: 2653, col: 42, offset: 84354},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 12, offset: 90410},
+																																			pos: position{line: 2879, col: 12, offset: 90884},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2861, col: 13, offset: 90411},
+																																				pos: position{line: 2879, col: 13, offset: 90885},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 13, offset: 90411},
+																																						pos:        position{line: 2879, col: 13, offset: 90885},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 20, offset: 90418},
+																																						pos:        position{line: 2879, col: 20, offset: 90892},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 29, offset: 90427},
+																																						pos:        position{line: 2879, col: 29, offset: 90901},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 51, offset: 83889},
+																																		pos:   position{line: 2653, col: 51, offset: 84363},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 5, offset: 84048},
+																																			pos: position{line: 2659, col: 5, offset: 84522},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2660, col: 9, offset: 84532},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2642, col: 9, offset: 84058},
+																																					pos: position{line: 2660, col: 9, offset: 84532},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2642, col: 9, offset: 84058},
+																																							pos: position{line: 2660, col: 9, offset: 84532},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2598, col: 22, offset: 83002},
+																																								pos: position{line: 2616, col: 22, offset: 83476},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2594, col: 19, offset: 82922},
+																																										pos: position{line: 2612, col: 19, offset: 83396},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2594, col: 19, offset: 82922},
+																																												pos:        position{line: 2612, col: 19, offset: 83396},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2594, col: 26, offset: 82929},
+																																												pos: position{line: 2612, col: 26, offset: 83403},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2852, col: 10, offset: 90239},
+																																													pos: position{line: 2870, col: 10, offset: 90713},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2852, col: 10, offset: 90239},
+																																														pos:        position{line: 2870, col: 10, offset: 90713},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2874, col: 8, offset: 90637},
+																																												pos: position{line: 2892, col: 8, offset: 91111},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2861, col: 12, offset: 90410},
+																																														pos: position{line: 2879, col: 12, offset: 90884},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2861, col: 13, offset: 90411},
+																																															pos: position{line: 2879, col: 13, offset: 90885},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2871, col: 8, offset: 90587},
+																																														pos: position{line: 2889, col: 8, offset: 91061},
 																																														expr: &anyMatcher{
-																																															line: 2871, col: 9, offset: 90588,
+																																															line: 2889, col: 9, offset: 91062,
 																																														},
 																																													},
 																																												},
@@ -9702,16 +9702,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2889, col: 8, offset: 91061},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2889, col: 9, offset: 91062,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2643, col: 9, offset: 84085},
+																																							pos: position{line: 2661, col: 9, offset: 84559},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								run: (*parser).callonDocumentFragment1261,
@@ -9719,18 +9719,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2869, col: 11, offset: 90573},
+																																											pos: position{line: 2887, col: 11, offset: 91047},
 																																											expr: &anyMatcher{
-																																												line: 2869, col: 13, offset: 90575,
+																																												line: 2887, col: 13, offset: 91049,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
+																																												pos: position{line: 2870, col: 10, offset: 90713},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2870, col: 10, offset: 90713},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2892, col: 8, offset: 91111},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
+																																													pos: position{line: 2879, col: 12, offset: 90884},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2879, col: 13, offset: 90885},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2889, col: 8, offset: 91061},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2889, col: 9, offset: 91062,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2644, col: 9, offset: 84104},
+																																							pos: position{line: 2662, col: 9, offset: 84578},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2644, col: 11, offset: 84106},
+																																								pos: position{line: 2662, col: 11, offset: 84580},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2644, col: 11, offset: 84106},
+																																										pos:   position{line: 2662, col: 11, offset: 84580},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2644, col: 18, offset: 84113},
+																																											pos: position{line: 2662, col: 18, offset: 84587},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2670, col: 20, offset: 84788},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2652, col: 20, offset: 84314},
+																																													pos: position{line: 2670, col: 20, offset: 84788},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2652, col: 20, offset: 84314},
+																																														pos:        position{line: 2670, col: 20, offset: 84788},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2644, col: 37, offset: 84132},
+																																										pos:        position{line: 2662, col: 37, offset: 84606},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2645, col: 9, offset: 84145},
+																																							pos:   position{line: 2663, col: 9, offset: 84619},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2663, col: 18, offset: 84628},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2645, col: 18, offset: 84154},
+																																									pos: position{line: 2663, col: 18, offset: 84628},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2645, col: 18, offset: 84154},
+																																										pos:        position{line: 2663, col: 18, offset: 84628},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2647, col: 12, offset: 84216},
+																																							pos: position{line: 2665, col: 12, offset: 84690},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2874, col: 8, offset: 90637},
+																																								pos: position{line: 2892, col: 8, offset: 91111},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2861, col: 12, offset: 90410},
+																																										pos: position{line: 2879, col: 12, offset: 90884},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2861, col: 13, offset: 90411},
+																																											pos: position{line: 2879, col: 13, offset: 90885},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 13, offset: 90411},
+																																													pos:        position{line: 2879, col: 13, offset: 90885},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 20, offset: 90418},
+																																													pos:        position{line: 2879, col: 20, offset: 90892},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 29, offset: 90427},
+																																													pos:        position{line: 2879, col: 29, offset: 90901},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2889, col: 8, offset: 91061},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2889, col: 9, offset: 91062,
 																																										},
 																																									},
 																																								},
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2887, col: 11, offset: 91047},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2887, col: 13, offset: 91049,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2598, col: 22, offset: 83002},
+														pos: position{line: 2616, col: 22, offset: 83476},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2594, col: 19, offset: 82922},
+																pos: position{line: 2612, col: 19, offset: 83396},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2594, col: 19, offset: 82922},
+																		pos:        position{line: 2612, col: 19, offset: 83396},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2594, col: 26, offset: 82929},
+																		pos: position{line: 2612, col: 26, offset: 83403},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -10044,36 +10044,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2480, col: 22, offset: 79698},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2480, col: 22, offset: 79698},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2485, col: 31, offset: 79919},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2485, col: 36, offset: 79924},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2485, col: 37, offset: 79925},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2480, col: 49, offset: 79725},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2816, col: 13, offset: 89239},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2816, col: 13, offset: 89239},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2816, col: 13, offset: 89239},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -10151,10 +10151,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -10229,10 +10229,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38197},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2870, col: 10, offset: 90713},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2870, col: 10, offset: 90713},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2892, col: 8, offset: 91111},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2879, col: 12, offset: 90884},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2879, col: 13, offset: 90885},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2879, col: 13, offset: 90885},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2879, col: 20, offset: 90892},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2879, col: 29, offset: 90901},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2889, col: 8, offset: 91061},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2889, col: 9, offset: 91062,
 																														},
 																													},
 																												},
@@ -10300,10 +10300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -10515,12 +10515,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2856, col: 11, offset: 90300},
+												pos: position{line: 2874, col: 11, offset: 90774},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2874, col: 11, offset: 90774},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 11, offset: 90300},
+														pos:        position{line: 2874, col: 11, offset: 90774},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -10618,25 +10618,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2879, col: 12, offset: 90884},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2879, col: 13, offset: 90885},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2879, col: 13, offset: 90885},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2879, col: 20, offset: 90892},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2879, col: 29, offset: 90901},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10647,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2870, col: 10, offset: 90713},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2870, col: 10, offset: 90713},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10720,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2870, col: 10, offset: 90713},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2870, col: 10, offset: 90713},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2874, col: 8, offset: 90637},
+										pos: position{line: 2892, col: 8, offset: 91111},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2879, col: 12, offset: 90884},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2879, col: 13, offset: 90885},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2879, col: 13, offset: 90885},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2879, col: 20, offset: 90892},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2879, col: 29, offset: 90901},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2889, col: 8, offset: 91061},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2889, col: 9, offset: 91062,
 												},
 											},
 										},
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2467, col: 5, offset: 79244},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2467, col: 5, offset: 79244},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2467, col: 5, offset: 79244},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2470, col: 5, offset: 79320},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2471, col: 9, offset: 79338},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2471, col: 10, offset: 79339},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2870, col: 10, offset: 90713},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2870, col: 10, offset: 90713},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11665,10 +11665,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2870, col: 10, offset: 90713},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2870, col: 10, offset: 90713},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2892, col: 8, offset: 91111},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2879, col: 12, offset: 90884},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2879, col: 13, offset: 90885},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2879, col: 13, offset: 90885},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2879, col: 20, offset: 90892},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2879, col: 29, offset: 90901},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11707,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2889, col: 8, offset: 91061},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2889, col: 9, offset: 91062,
 														},
 													},
 												},
@@ -11723,18 +11723,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2887, col: 11, offset: 91047},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2887, col: 13, offset: 91049,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -11827,12 +11827,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2764, col: 14, offset: 87882},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2764, col: 14, offset: 87882},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2764, col: 14, offset: 87882},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2769, col: 5, offset: 87893},
+																				pos: position{line: 2787, col: 5, offset: 88367},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2770, col: 9, offset: 87903},
+																					pos: position{line: 2788, col: 9, offset: 88377},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 10, offset: 87904},
+																							pos:        position{line: 2788, col: 10, offset: 88378},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2772, col: 13, offset: 88001},
+																							pos: position{line: 2790, col: 13, offset: 88475},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2772, col: 13, offset: 88001},
+																									pos: position{line: 2790, col: 13, offset: 88475},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2775, col: 13, offset: 88101},
+																									pos:        position{line: 2793, col: 13, offset: 88575},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2775, col: 19, offset: 88107},
+																							pos:        position{line: 2793, col: 19, offset: 88581},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2778, col: 13, offset: 88145},
+																							pos: position{line: 2796, col: 13, offset: 88619},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2778, col: 13, offset: 88145},
+																									pos: position{line: 2796, col: 13, offset: 88619},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2781, col: 14, offset: 88238},
+																									pos:        position{line: 2799, col: 14, offset: 88712},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2783, col: 12, offset: 88282},
+																							pos: position{line: 2801, col: 12, offset: 88756},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2783, col: 12, offset: 88282},
+																									pos:        position{line: 2801, col: 12, offset: 88756},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2783, col: 16, offset: 88286},
+																									pos: position{line: 2801, col: 16, offset: 88760},
 																									expr: &litMatcher{
-																										pos:        position{line: 2783, col: 17, offset: 88287},
+																										pos:        position{line: 2801, col: 17, offset: 88761},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12031,10 +12031,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2791, col: 12, offset: 88547},
+																				pos: position{line: 2809, col: 12, offset: 89021},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2791, col: 12, offset: 88547},
+																					pos:        position{line: 2809, col: 12, offset: 89021},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12052,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2870, col: 10, offset: 90713},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2870, col: 10, offset: 90713},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12064,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2892, col: 8, offset: 91111},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2879, col: 12, offset: 90884},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2879, col: 13, offset: 90885},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2879, col: 13, offset: 90885},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2879, col: 20, offset: 90892},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2879, col: 29, offset: 90901},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12094,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2889, col: 8, offset: 91061},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2889, col: 9, offset: 91062,
 														},
 													},
 												},
@@ -12110,18 +12110,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2887, col: 11, offset: 91047},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2887, col: 13, offset: 91049,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12130,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12160,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -12191,10 +12191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2870, col: 10, offset: 90713},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2870, col: 10, offset: 90713},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12203,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2892, col: 8, offset: 91111},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2879, col: 12, offset: 90884},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2879, col: 13, offset: 90885},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2879, col: 13, offset: 90885},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2879, col: 20, offset: 90892},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2879, col: 29, offset: 90901},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12233,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2889, col: 8, offset: 91061},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2889, col: 9, offset: 91062,
 														},
 													},
 												},
@@ -12249,18 +12249,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2887, col: 11, offset: 91047},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2887, col: 13, offset: 91049,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -12549,10 +12549,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2870, col: 10, offset: 90713},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2870, col: 10, offset: 90713},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13084,10 +13084,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13148,10 +13148,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13191,10 +13191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2870, col: 10, offset: 90713},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2870, col: 10, offset: 90713},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13217,10 +13217,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13275,10 +13275,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2870, col: 10, offset: 90713},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2870, col: 10, offset: 90713},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13309,10 +13309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13342,10 +13342,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2870, col: 10, offset: 90713},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2870, col: 10, offset: 90713},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13400,10 +13400,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2870, col: 10, offset: 90713},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2870, col: 10, offset: 90713},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13482,12 +13482,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2764, col: 14, offset: 87882},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2764, col: 14, offset: 87882},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2764, col: 14, offset: 87882},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13496,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2870, col: 10, offset: 90713},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2870, col: 10, offset: 90713},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13956,10 +13956,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2870, col: 10, offset: 90713},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2870, col: 10, offset: 90713},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,12 +13996,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2764, col: 14, offset: 87882},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2764, col: 14, offset: 87882},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2764, col: 14, offset: 87882},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14010,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2870, col: 10, offset: 90713},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2870, col: 10, offset: 90713},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14440,10 +14440,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14833,10 +14833,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2870, col: 10, offset: 90713},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2870, col: 10, offset: 90713},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14887,12 +14887,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2855, col: 7, offset: 90365},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2855, col: 7, offset: 90365},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2855, col: 7, offset: 90365},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14904,10 +14904,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2870, col: 10, offset: 90713},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2870, col: 10, offset: 90713},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15100,12 +15100,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2855, col: 7, offset: 90365},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2855, col: 7, offset: 90365},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2855, col: 7, offset: 90365},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15149,41 +15149,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 17, offset: 88902},
+								pos: position{line: 2824, col: 17, offset: 89376},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2806, col: 17, offset: 88902},
+									pos:   position{line: 2824, col: 17, offset: 89376},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89356},
+										pos: position{line: 2841, col: 5, offset: 89830},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2823, col: 5, offset: 89356},
+											pos:   position{line: 2841, col: 5, offset: 89830},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2823, col: 14, offset: 89365},
+												pos: position{line: 2841, col: 14, offset: 89839},
 												expr: &choiceExpr{
-													pos: position{line: 2824, col: 9, offset: 89375},
+													pos: position{line: 2842, col: 9, offset: 89849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2842, col: 9, offset: 89849},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2824, col: 9, offset: 89375},
+																pos: position{line: 2842, col: 9, offset: 89849},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2842, col: 9, offset: 89849},
 																		expr: &litMatcher{
-																			pos:        position{line: 2824, col: 10, offset: 89376},
+																			pos:        position{line: 2842, col: 10, offset: 89850},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2825, col: 9, offset: 89404},
+																		pos: position{line: 2843, col: 9, offset: 89878},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2825, col: 10, offset: 89405},
+																			pos:        position{line: 2843, col: 10, offset: 89879},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15194,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2828, col: 11, offset: 89617},
+															pos: position{line: 2846, col: 11, offset: 90091},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2828, col: 11, offset: 89617},
+																	pos:        position{line: 2846, col: 11, offset: 90091},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2828, col: 19, offset: 89625},
+																	pos: position{line: 2846, col: 19, offset: 90099},
 																	expr: &seqExpr{
-																		pos: position{line: 2828, col: 21, offset: 89627},
+																		pos: position{line: 2846, col: 21, offset: 90101},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2846, col: 21, offset: 90101},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15223,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2828, col: 28, offset: 89634},
+																				pos: position{line: 2846, col: 28, offset: 90108},
 																				expr: &notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -15622,10 +15622,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89754},
+															pos: position{line: 2849, col: 11, offset: 90228},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 11, offset: 89754},
+																pos:        position{line: 2849, col: 11, offset: 90228},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15670,12 +15670,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30806},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 14, offset: 88832},
+								pos: position{line: 2820, col: 14, offset: 89306},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 14, offset: 88832},
+									pos: position{line: 2820, col: 14, offset: 89306},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 14, offset: 88832},
+										pos:        position{line: 2820, col: 14, offset: 89306},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15685,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15715,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -15745,36 +15745,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33808},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2480, col: 22, offset: 79698},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2480, col: 22, offset: 79698},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2485, col: 31, offset: 79919},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2485, col: 36, offset: 79924},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2485, col: 37, offset: 79925},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2816, col: 13, offset: 89239},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2816, col: 13, offset: 89239},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2816, col: 13, offset: 89239},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15784,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15814,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -15867,10 +15867,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +15879,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +15909,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -15972,10 +15972,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +15984,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16014,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -16025,9 +16025,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -16043,21 +16043,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16067,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16097,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -16155,10 +16155,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16167,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16197,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -16208,9 +16208,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -16236,36 +16236,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33931},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2480, col: 22, offset: 79698},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2480, col: 22, offset: 79698},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2485, col: 31, offset: 79919},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2485, col: 36, offset: 79924},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2485, col: 37, offset: 79925},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2816, col: 13, offset: 89239},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2816, col: 13, offset: 89239},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2816, col: 13, offset: 89239},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16275,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16305,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -16358,10 +16358,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16370,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16400,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -16463,10 +16463,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -16516,9 +16516,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -16534,21 +16534,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16558,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16588,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -16646,10 +16646,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16688,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -16699,9 +16699,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -16745,10 +16745,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16799,10 +16799,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35291},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2870, col: 10, offset: 90713},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2870, col: 10, offset: 90713},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16834,10 +16834,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35390},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2870, col: 10, offset: 90713},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2870, col: 10, offset: 90713},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16869,10 +16869,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2870, col: 10, offset: 90713},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2870, col: 10, offset: 90713},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16897,9 +16897,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35609},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2887, col: 11, offset: 91047},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2887, col: 13, offset: 91049,
 																										},
 																									},
 																									&litMatcher{
@@ -16940,10 +16940,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34879},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16963,10 +16963,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16984,28 +16984,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -17031,36 +17031,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34461},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2480, col: 22, offset: 79698},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2480, col: 22, offset: 79698},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2485, col: 31, offset: 79919},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2485, col: 36, offset: 79924},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2485, col: 37, offset: 79925},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2480, col: 49, offset: 79725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2816, col: 13, offset: 89239},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2816, col: 13, offset: 89239},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2816, col: 13, offset: 89239},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17070,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17100,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -17153,10 +17153,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23686},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17165,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -17258,10 +17258,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23686},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2870, col: 10, offset: 90713},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2870, col: 10, offset: 90713},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17270,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2892, col: 8, offset: 91111},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2879, col: 12, offset: 90884},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2879, col: 13, offset: 90885},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2879, col: 13, offset: 90885},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2879, col: 20, offset: 90892},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2879, col: 29, offset: 90901},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17300,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2889, col: 8, offset: 91061},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2889, col: 9, offset: 91062,
 																															},
 																														},
 																													},
@@ -17311,9 +17311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -17329,21 +17329,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2887, col: 11, offset: 91047},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2887, col: 13, offset: 91049,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2798, col: 13, offset: 88765},
+																												pos: position{line: 2816, col: 13, offset: 89239},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2798, col: 13, offset: 88765},
+																													pos: position{line: 2816, col: 13, offset: 89239},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2798, col: 13, offset: 88765},
+																														pos:        position{line: 2816, col: 13, offset: 89239},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -17441,10 +17441,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17453,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17483,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -17494,9 +17494,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -17522,10 +17522,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35887},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17627,10 +17627,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36518},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2870, col: 10, offset: 90713},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2870, col: 10, offset: 90713},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17777,28 +17777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -17889,10 +17889,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +17901,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +17931,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -17994,10 +17994,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2870, col: 10, offset: 90713},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2870, col: 10, offset: 90713},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18006,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18036,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -18047,36 +18047,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2480, col: 22, offset: 79698},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2480, col: 22, offset: 79698},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2485, col: 31, offset: 79919},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2485, col: 36, offset: 79924},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2485, col: 37, offset: 79925},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2480, col: 49, offset: 79725},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2816, col: 13, offset: 89239},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2816, col: 13, offset: 89239},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2816, col: 13, offset: 89239},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18086,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -18169,10 +18169,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18181,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18211,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -18274,10 +18274,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18286,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18316,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -18327,9 +18327,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -18345,21 +18345,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2816, col: 13, offset: 89239},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2816, col: 13, offset: 89239},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -18457,10 +18457,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18469,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2892, col: 8, offset: 91111},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2879, col: 12, offset: 90884},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2879, col: 13, offset: 90885},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2879, col: 13, offset: 90885},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2879, col: 20, offset: 90892},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2879, col: 29, offset: 90901},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18499,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -18510,9 +18510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -18545,12 +18545,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2874, col: 11, offset: 90774},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2874, col: 11, offset: 90774},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2874, col: 11, offset: 90774},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18567,28 +18567,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18597,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -18638,10 +18638,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35291},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18673,10 +18673,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35390},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18708,10 +18708,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18777,12 +18777,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39689},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2837, col: 7, offset: 89891},
+								pos: position{line: 2855, col: 7, offset: 90365},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2837, col: 7, offset: 89891},
+									pos: position{line: 2855, col: 7, offset: 90365},
 									expr: &charClassMatcher{
-										pos:        position{line: 2837, col: 7, offset: 89891},
+										pos:        position{line: 2855, col: 7, offset: 90365},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18851,12 +18851,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40149},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2764, col: 14, offset: 87882},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2764, col: 14, offset: 87882},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2764, col: 14, offset: 87882},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18869,10 +18869,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2870, col: 10, offset: 90713},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2870, col: 10, offset: 90713},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +18880,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2467, col: 5, offset: 79244},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2467, col: 5, offset: 79244},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2467, col: 5, offset: 79244},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78846},
+												pos:   position{line: 2470, col: 5, offset: 79320},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78864},
+													pos: position{line: 2471, col: 9, offset: 79338},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78865},
+														pos:        position{line: 2471, col: 10, offset: 79339},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18992,48 +18992,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 15, offset: 40967},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2828, col: 13, offset: 89472},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2828, col: 13, offset: 89472},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2828, col: 13, offset: 89472},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2828, col: 20, offset: 89479},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2836, col: 11, offset: 89718},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2836, col: 12, offset: 89719},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2836, col: 12, offset: 89719},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2836, col: 24, offset: 89731},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2836, col: 37, offset: 89744},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2836, col: 48, offset: 89755},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2836, col: 59, offset: 89766},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19044,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2828, col: 30, offset: 89489},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2841, col: 5, offset: 89830},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2841, col: 5, offset: 89830},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2841, col: 14, offset: 89839},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2842, col: 9, offset: 89849},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2842, col: 9, offset: 89849},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2842, col: 10, offset: 89850},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2843, col: 9, offset: 89878},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2843, col: 10, offset: 89879},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19086,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2846, col: 11, offset: 90091},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2846, col: 11, offset: 90091},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2846, col: 19, offset: 90099},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2846, col: 21, offset: 90101},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19115,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2846, col: 28, offset: 90108},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -19514,10 +19514,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2849, col: 11, offset: 90228},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2849, col: 11, offset: 90228},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19544,10 +19544,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 61, offset: 41013},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19556,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19586,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -19625,48 +19625,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41259},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2828, col: 13, offset: 89472},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2828, col: 13, offset: 89472},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2828, col: 13, offset: 89472},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2828, col: 20, offset: 89479},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2836, col: 11, offset: 89718},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2836, col: 12, offset: 89719},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2836, col: 12, offset: 89719},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2836, col: 24, offset: 89731},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2836, col: 37, offset: 89744},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2836, col: 48, offset: 89755},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2836, col: 59, offset: 89766},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19677,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2828, col: 30, offset: 89489},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2841, col: 5, offset: 89830},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2841, col: 5, offset: 89830},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2841, col: 14, offset: 89839},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2842, col: 9, offset: 89849},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2842, col: 9, offset: 89849},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2842, col: 10, offset: 89850},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2843, col: 9, offset: 89878},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2843, col: 10, offset: 89879},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19719,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2846, col: 11, offset: 90091},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2846, col: 11, offset: 90091},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2846, col: 19, offset: 90099},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2846, col: 21, offset: 90101},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19748,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2846, col: 28, offset: 90108},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -20147,10 +20147,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2849, col: 11, offset: 90228},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2849, col: 11, offset: 90228},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20245,12 +20245,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2764, col: 14, offset: 87882},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2764, col: 14, offset: 87882},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2764, col: 14, offset: 87882},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20328,21 +20328,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42545},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2769, col: 5, offset: 87955},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2769, col: 5, offset: 87955},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2769, col: 5, offset: 87955},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2769, col: 11, offset: 87961},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2769, col: 11, offset: 87961},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2769, col: 11, offset: 87961},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20352,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2772, col: 5, offset: 88019},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2773, col: 9, offset: 88030},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2773, col: 9, offset: 88030},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2774, col: 9, offset: 88079},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2778, col: 5, offset: 88159},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2779, col: 9, offset: 88170},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2779, col: 9, offset: 88170},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2779, col: 13, offset: 88174},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20394,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2874, col: 11, offset: 90774},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2874, col: 11, offset: 90774},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2874, col: 11, offset: 90774},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20408,21 +20408,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2498, col: 5, offset: 80415},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2498, col: 5, offset: 80415},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2498, col: 5, offset: 80415},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2498, col: 10, offset: 80420},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2498, col: 11, offset: 80421},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20433,29 +20433,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2504, col: 5, offset: 80613},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2504, col: 5, offset: 80613},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2504, col: 5, offset: 80613},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2507, col: 5, offset: 80684},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2511, col: 5, offset: 80809},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2511, col: 9, offset: 80813},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2511, col: 10, offset: 80814},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20474,27 +20474,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2787, col: 5, offset: 88367},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2788, col: 9, offset: 88377},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2788, col: 10, offset: 88378},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2790, col: 13, offset: 88475},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2790, col: 13, offset: 88475},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2793, col: 13, offset: 88575},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20502,20 +20502,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2793, col: 19, offset: 88581},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2796, col: 13, offset: 88619},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2796, col: 13, offset: 88619},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2799, col: 14, offset: 88712},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20524,18 +20524,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2801, col: 12, offset: 88756},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2801, col: 12, offset: 88756},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2801, col: 16, offset: 88760},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2801, col: 17, offset: 88761},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20573,10 +20573,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37589},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20587,28 +20587,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37596},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20617,9 +20617,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -20975,23 +20975,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2467, col: 5, offset: 79244},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2467, col: 5, offset: 79244},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2467, col: 5, offset: 79244},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2470, col: 5, offset: 79320},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2471, col: 9, offset: 79338},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2471, col: 10, offset: 79339},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21003,25 +21003,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2879, col: 12, offset: 90884},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2879, col: 13, offset: 90885},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2879, col: 13, offset: 90885},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2879, col: 20, offset: 90892},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2879, col: 29, offset: 90901},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21030,10 +21030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2809, col: 12, offset: 89021},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2809, col: 12, offset: 89021},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21165,55 +21165,55 @@ var g = &grammar{
 									pos:   position{line: 1406, col: 5, offset: 45251},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2832, col: 23, offset: 89599},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2832, col: 23, offset: 89599},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2832, col: 23, offset: 89599},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2832, col: 24, offset: 89600},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2832, col: 28, offset: 89604},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2836, col: 11, offset: 89718},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2836, col: 12, offset: 89719},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2836, col: 12, offset: 89719},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2836, col: 24, offset: 89731},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2836, col: 37, offset: 89744},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2836, col: 48, offset: 89755},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2836, col: 59, offset: 89766},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21223,38 +21223,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2832, col: 44, offset: 89620},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2841, col: 5, offset: 89830},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2841, col: 5, offset: 89830},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2841, col: 14, offset: 89839},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2842, col: 9, offset: 89849},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2842, col: 9, offset: 89849},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2842, col: 10, offset: 89850},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2843, col: 9, offset: 89878},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2843, col: 10, offset: 89879},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21265,27 +21265,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2846, col: 11, offset: 90091},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2846, col: 11, offset: 90091},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2846, col: 19, offset: 90099},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2846, col: 21, offset: 90101},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21294,11 +21294,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2846, col: 28, offset: 90108},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -21693,10 +21693,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2849, col: 11, offset: 90228},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2849, col: 11, offset: 90228},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21871,48 +21871,48 @@ var g = &grammar{
 									pos:   position{line: 1419, col: 17, offset: 45666},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2828, col: 13, offset: 89472},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2828, col: 13, offset: 89472},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2828, col: 13, offset: 89472},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2828, col: 20, offset: 89479},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2836, col: 11, offset: 89718},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2836, col: 12, offset: 89719},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2836, col: 12, offset: 89719},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2836, col: 24, offset: 89731},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2836, col: 37, offset: 89744},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2836, col: 48, offset: 89755},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2836, col: 59, offset: 89766},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21923,38 +21923,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2828, col: 30, offset: 89489},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2841, col: 5, offset: 89830},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2841, col: 5, offset: 89830},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2841, col: 14, offset: 89839},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2842, col: 9, offset: 89849},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2842, col: 9, offset: 89849},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2842, col: 10, offset: 89850},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2843, col: 9, offset: 89878},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2843, col: 10, offset: 89879},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21965,27 +21965,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2846, col: 11, offset: 90091},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2846, col: 11, offset: 90091},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2846, col: 19, offset: 90099},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2846, col: 21, offset: 90101},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21994,11 +21994,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2846, col: 28, offset: 90108},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -22393,10 +22393,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2849, col: 11, offset: 90228},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2849, col: 11, offset: 90228},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22439,48 +22439,48 @@ var g = &grammar{
 									pos:   position{line: 1424, col: 13, offset: 45833},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2828, col: 13, offset: 89472},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2828, col: 13, offset: 89472},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2828, col: 13, offset: 89472},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2828, col: 20, offset: 89479},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2836, col: 11, offset: 89718},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2836, col: 12, offset: 89719},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2836, col: 12, offset: 89719},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2836, col: 24, offset: 89731},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2836, col: 37, offset: 89744},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2836, col: 48, offset: 89755},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2836, col: 59, offset: 89766},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22491,38 +22491,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2828, col: 30, offset: 89489},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2841, col: 5, offset: 89830},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2841, col: 5, offset: 89830},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2841, col: 14, offset: 89839},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2842, col: 9, offset: 89849},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2842, col: 9, offset: 89849},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2842, col: 10, offset: 89850},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2843, col: 9, offset: 89878},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2843, col: 10, offset: 89879},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22533,27 +22533,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2846, col: 11, offset: 90091},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2846, col: 11, offset: 90091},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2846, col: 19, offset: 90099},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2846, col: 21, offset: 90101},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22562,11 +22562,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2846, col: 28, offset: 90108},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -22961,10 +22961,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2849, col: 11, offset: 90228},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2849, col: 11, offset: 90228},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23016,55 +23016,55 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 9, offset: 46142},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2832, col: 23, offset: 89599},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2832, col: 23, offset: 89599},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2832, col: 23, offset: 89599},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2832, col: 24, offset: 89600},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2832, col: 28, offset: 89604},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2836, col: 11, offset: 89718},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2836, col: 12, offset: 89719},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2836, col: 12, offset: 89719},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2836, col: 24, offset: 89731},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2836, col: 37, offset: 89744},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2836, col: 48, offset: 89755},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2836, col: 59, offset: 89766},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23074,38 +23074,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2832, col: 44, offset: 89620},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2841, col: 5, offset: 89830},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2841, col: 5, offset: 89830},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2841, col: 14, offset: 89839},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2842, col: 9, offset: 89849},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2842, col: 9, offset: 89849},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2842, col: 10, offset: 89850},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2843, col: 9, offset: 89878},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2843, col: 10, offset: 89879},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23116,27 +23116,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2846, col: 11, offset: 90091},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2846, col: 11, offset: 90091},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2846, col: 19, offset: 90099},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2846, col: 21, offset: 90101},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23145,11 +23145,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2846, col: 28, offset: 90108},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -23544,10 +23544,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2849, col: 11, offset: 90228},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2849, col: 11, offset: 90228},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23587,55 +23587,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46312},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2832, col: 23, offset: 89599},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2832, col: 23, offset: 89599},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2832, col: 23, offset: 89599},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2832, col: 24, offset: 89600},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2832, col: 28, offset: 89604},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2836, col: 11, offset: 89718},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2836, col: 12, offset: 89719},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2836, col: 12, offset: 89719},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2836, col: 24, offset: 89731},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2836, col: 37, offset: 89744},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2836, col: 48, offset: 89755},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2836, col: 59, offset: 89766},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23645,38 +23645,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2832, col: 44, offset: 89620},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2841, col: 5, offset: 89830},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2841, col: 5, offset: 89830},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2841, col: 14, offset: 89839},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2842, col: 9, offset: 89849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2842, col: 9, offset: 89849},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2842, col: 9, offset: 89849},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2842, col: 9, offset: 89849},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2842, col: 10, offset: 89850},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2843, col: 9, offset: 89878},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2843, col: 10, offset: 89879},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23687,27 +23687,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2846, col: 11, offset: 90091},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2846, col: 11, offset: 90091},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2846, col: 19, offset: 90099},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2846, col: 21, offset: 90101},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2846, col: 21, offset: 90101},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23716,11 +23716,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2846, col: 28, offset: 90108},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -24115,10 +24115,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2849, col: 11, offset: 90228},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2849, col: 11, offset: 90228},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24184,10 +24184,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24354,12 +24354,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24402,28 +24402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24432,9 +24432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -24464,10 +24464,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24508,12 +24508,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24585,12 +24585,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2874, col: 11, offset: 90774},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2874, col: 11, offset: 90774},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24634,28 +24634,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24664,9 +24664,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -24724,12 +24724,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24772,28 +24772,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24802,9 +24802,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -24869,28 +24869,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1662, col: 35, offset: 53866},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24899,9 +24899,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -24964,10 +24964,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1680, col: 9, offset: 54371},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24976,28 +24976,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25006,9 +25006,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -25022,18 +25022,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25042,28 +25042,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25072,9 +25072,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -25093,12 +25093,12 @@ var g = &grammar{
 																	pos: position{line: 1687, col: 9, offset: 54519},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2874, col: 11, offset: 90774},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2874, col: 11, offset: 90774},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2874, col: 11, offset: 90774},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25125,28 +25125,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25155,9 +25155,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -25215,9 +25215,9 @@ var g = &grammar{
 					pos: position{line: 1487, col: 5, offset: 48062},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&labeledExpr{
@@ -25241,18 +25241,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2887, col: 11, offset: 91047},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2887, col: 13, offset: 91049,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25261,28 +25261,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25291,9 +25291,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -25326,10 +25326,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25496,12 +25496,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25544,28 +25544,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25574,9 +25574,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -25606,10 +25606,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25650,12 +25650,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25727,12 +25727,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2874, col: 11, offset: 90774},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2874, col: 11, offset: 90774},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25776,28 +25776,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25806,9 +25806,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -25866,12 +25866,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25914,28 +25914,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25944,9 +25944,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -26011,28 +26011,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26041,9 +26041,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -26106,10 +26106,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1680, col: 9, offset: 54371},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26118,28 +26118,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26148,9 +26148,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -26164,18 +26164,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2887, col: 11, offset: 91047},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2887, col: 13, offset: 91049,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2870, col: 10, offset: 90713},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2870, col: 10, offset: 90713},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26184,28 +26184,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2892, col: 8, offset: 91111},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2879, col: 12, offset: 90884},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2879, col: 13, offset: 90885},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2879, col: 13, offset: 90885},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2879, col: 20, offset: 90892},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2879, col: 29, offset: 90901},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26214,9 +26214,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2889, col: 8, offset: 91061},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2889, col: 9, offset: 91062,
 																															},
 																														},
 																													},
@@ -26235,12 +26235,12 @@ var g = &grammar{
 																							pos: position{line: 1687, col: 9, offset: 54519},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2874, col: 11, offset: 90774},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2874, col: 11, offset: 90774},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2874, col: 11, offset: 90774},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26267,28 +26267,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26297,9 +26297,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -26360,10 +26360,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26530,12 +26530,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26578,28 +26578,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26608,9 +26608,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -26640,10 +26640,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26684,12 +26684,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26761,12 +26761,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2874, col: 11, offset: 90774},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2874, col: 11, offset: 90774},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26810,28 +26810,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26840,9 +26840,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -26900,12 +26900,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26948,28 +26948,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26978,9 +26978,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -27045,28 +27045,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27075,9 +27075,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -27140,10 +27140,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1680, col: 9, offset: 54371},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27152,28 +27152,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27182,9 +27182,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -27198,18 +27198,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2887, col: 11, offset: 91047},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2887, col: 13, offset: 91049,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2870, col: 10, offset: 90713},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2870, col: 10, offset: 90713},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27218,28 +27218,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2892, col: 8, offset: 91111},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2879, col: 12, offset: 90884},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2879, col: 13, offset: 90885},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2879, col: 13, offset: 90885},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2879, col: 20, offset: 90892},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2879, col: 29, offset: 90901},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27248,9 +27248,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2889, col: 8, offset: 91061},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2889, col: 9, offset: 91062,
 																															},
 																														},
 																													},
@@ -27269,12 +27269,12 @@ var g = &grammar{
 																							pos: position{line: 1687, col: 9, offset: 54519},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2874, col: 11, offset: 90774},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2874, col: 11, offset: 90774},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2874, col: 11, offset: 90774},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27301,28 +27301,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27331,9 +27331,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -27358,36 +27358,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2480, col: 22, offset: 79698},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2480, col: 22, offset: 79698},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2485, col: 31, offset: 79919},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2485, col: 36, offset: 79924},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2485, col: 37, offset: 79925},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2816, col: 13, offset: 89239},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2816, col: 13, offset: 89239},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2816, col: 13, offset: 89239},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27397,28 +27397,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27427,9 +27427,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -27452,18 +27452,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2887, col: 11, offset: 91047},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2887, col: 13, offset: 91049,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27472,28 +27472,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27502,9 +27502,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -27527,10 +27527,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1536, col: 31, offset: 49640},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27539,25 +27539,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27579,10 +27579,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27749,12 +27749,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27777,10 +27777,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27821,12 +27821,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27877,12 +27877,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27943,28 +27943,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1662, col: 35, offset: 53866},
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -27973,9 +27973,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -28032,7 +28032,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2760, col: 13, offset: 87808},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28082,10 +28082,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28094,28 +28094,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28124,9 +28124,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28171,10 +28171,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28183,28 +28183,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28213,9 +28213,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28256,10 +28256,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28268,28 +28268,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28298,9 +28298,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28345,10 +28345,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28357,28 +28357,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28387,9 +28387,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28434,10 +28434,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28446,28 +28446,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28476,9 +28476,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28523,10 +28523,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28535,28 +28535,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28565,9 +28565,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28612,10 +28612,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28624,28 +28624,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28654,9 +28654,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28701,10 +28701,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,28 +28713,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28743,9 +28743,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28790,10 +28790,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28802,28 +28802,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28832,9 +28832,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -28853,12 +28853,12 @@ var g = &grammar{
 													pos:   position{line: 1512, col: 5, offset: 49008},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2820, col: 14, offset: 89306},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 14, offset: 88832},
+															pos: position{line: 2820, col: 14, offset: 89306},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 14, offset: 88832},
+																pos:        position{line: 2820, col: 14, offset: 89306},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28868,28 +28868,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28898,9 +28898,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -28935,10 +28935,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1529, col: 13, offset: 49432},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2870, col: 10, offset: 90713},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2870, col: 10, offset: 90713},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28947,25 +28947,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 12, offset: 90410},
+											pos: position{line: 2879, col: 12, offset: 90884},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2861, col: 13, offset: 90411},
+												pos: position{line: 2879, col: 13, offset: 90885},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2861, col: 13, offset: 90411},
+														pos:        position{line: 2879, col: 13, offset: 90885},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 20, offset: 90418},
+														pos:        position{line: 2879, col: 20, offset: 90892},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 29, offset: 90427},
+														pos:        position{line: 2879, col: 29, offset: 90901},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28986,10 +28986,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1536, col: 31, offset: 49640},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -28998,25 +28998,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2861, col: 12, offset: 90410},
+							pos: position{line: 2879, col: 12, offset: 90884},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2861, col: 13, offset: 90411},
+								pos: position{line: 2879, col: 13, offset: 90885},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2861, col: 13, offset: 90411},
+										pos:        position{line: 2879, col: 13, offset: 90885},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 20, offset: 90418},
+										pos:        position{line: 2879, col: 20, offset: 90892},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 29, offset: 90427},
+										pos:        position{line: 2879, col: 29, offset: 90901},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29049,9 +29049,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49727},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -29077,10 +29077,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29247,12 +29247,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29295,28 +29295,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29325,9 +29325,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -29357,10 +29357,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29401,12 +29401,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29478,12 +29478,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2874, col: 11, offset: 90774},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2874, col: 11, offset: 90774},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29527,28 +29527,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29557,9 +29557,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -29617,12 +29617,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29665,28 +29665,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29695,9 +29695,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -29762,28 +29762,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1662, col: 35, offset: 53866},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29792,9 +29792,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -29857,10 +29857,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1680, col: 9, offset: 54371},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29869,28 +29869,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29899,9 +29899,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -29915,18 +29915,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2887, col: 11, offset: 91047},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2887, col: 13, offset: 91049,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29935,28 +29935,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29965,9 +29965,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -29986,12 +29986,12 @@ var g = &grammar{
 																	pos: position{line: 1687, col: 9, offset: 54519},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2874, col: 11, offset: 90774},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2874, col: 11, offset: 90774},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2874, col: 11, offset: 90774},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30018,28 +30018,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30048,9 +30048,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -30091,18 +30091,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2869, col: 11, offset: 90573},
+													pos: position{line: 2887, col: 11, offset: 91047},
 													expr: &anyMatcher{
-														line: 2869, col: 13, offset: 90575,
+														line: 2887, col: 13, offset: 91049,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30111,28 +30111,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30141,9 +30141,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -30208,10 +30208,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30220,28 +30220,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30250,9 +30250,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -30313,10 +30313,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30325,28 +30325,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30355,9 +30355,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -30408,10 +30408,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30420,28 +30420,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30450,9 +30450,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -30513,10 +30513,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30525,28 +30525,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30555,9 +30555,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -30566,9 +30566,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -30584,21 +30584,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30608,28 +30608,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30638,9 +30638,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -30696,10 +30696,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30708,28 +30708,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30738,9 +30738,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -30749,9 +30749,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -30806,10 +30806,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30818,28 +30818,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30848,9 +30848,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -30922,10 +30922,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30934,28 +30934,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30964,9 +30964,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -30982,9 +30982,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -31000,21 +31000,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31024,28 +31024,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31054,9 +31054,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -31121,10 +31121,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31133,28 +31133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31163,9 +31163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -31181,9 +31181,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -31235,10 +31235,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31247,28 +31247,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31277,9 +31277,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -31313,10 +31313,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30149},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31325,28 +31325,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31355,9 +31355,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -31375,21 +31375,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31399,28 +31399,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31429,9 +31429,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -31459,10 +31459,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30149},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31471,28 +31471,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31501,9 +31501,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -31560,10 +31560,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31572,28 +31572,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31602,9 +31602,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -31676,10 +31676,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31688,28 +31688,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31718,9 +31718,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -31736,9 +31736,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -31754,21 +31754,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31778,28 +31778,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31808,9 +31808,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -31875,10 +31875,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31887,28 +31887,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31917,9 +31917,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -31935,9 +31935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -31993,10 +31993,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32005,28 +32005,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32035,9 +32035,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -32109,10 +32109,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32121,28 +32121,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32151,9 +32151,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -32169,9 +32169,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -32187,21 +32187,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32211,28 +32211,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32241,9 +32241,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -32308,10 +32308,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32320,28 +32320,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32350,9 +32350,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -32368,9 +32368,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -32426,10 +32426,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32438,28 +32438,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32468,9 +32468,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -32542,10 +32542,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32554,28 +32554,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32584,9 +32584,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -32602,9 +32602,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -32620,21 +32620,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32644,28 +32644,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32674,9 +32674,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -32741,10 +32741,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32753,28 +32753,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32783,9 +32783,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -32801,9 +32801,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -32837,18 +32837,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2887, col: 11, offset: 91047},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2887, col: 13, offset: 91049,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32857,28 +32857,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32887,9 +32887,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -32908,12 +32908,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30684},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
+																		pos: position{line: 2820, col: 14, offset: 89306},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2820, col: 14, offset: 89306},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2820, col: 14, offset: 89306},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32923,28 +32923,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32953,9 +32953,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -32987,18 +32987,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2869, col: 11, offset: 90573},
+																								pos: position{line: 2887, col: 11, offset: 91047},
 																								expr: &anyMatcher{
-																									line: 2869, col: 13, offset: 90575,
+																									line: 2887, col: 13, offset: 91049,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33007,28 +33007,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33037,9 +33037,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -33058,12 +33058,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30684},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
+																					pos: position{line: 2820, col: 14, offset: 89306},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2820, col: 14, offset: 89306},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2820, col: 14, offset: 89306},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33073,28 +33073,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2892, col: 8, offset: 91111},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2879, col: 12, offset: 90884},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2879, col: 13, offset: 90885},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2879, col: 13, offset: 90885},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2879, col: 20, offset: 90892},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2879, col: 29, offset: 90901},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33103,9 +33103,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -33123,12 +33123,12 @@ var g = &grammar{
 																				pos:   position{line: 1784, col: 5, offset: 57605},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
+																					pos: position{line: 2820, col: 14, offset: 89306},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2820, col: 14, offset: 89306},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2820, col: 14, offset: 89306},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33142,28 +33142,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2892, col: 8, offset: 91111},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2879, col: 12, offset: 90884},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2879, col: 13, offset: 90885},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2879, col: 13, offset: 90885},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2879, col: 20, offset: 90892},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2879, col: 29, offset: 90901},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33172,9 +33172,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -33221,10 +33221,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33233,28 +33233,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33263,9 +33263,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -33313,10 +33313,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2870, col: 10, offset: 90713},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2870, col: 10, offset: 90713},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33325,28 +33325,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2892, col: 8, offset: 91111},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2879, col: 12, offset: 90884},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2879, col: 13, offset: 90885},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2879, col: 13, offset: 90885},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2879, col: 20, offset: 90892},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2879, col: 29, offset: 90901},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33355,9 +33355,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2889, col: 8, offset: 91061},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2889, col: 9, offset: 91062,
 																										},
 																									},
 																								},
@@ -33366,9 +33366,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -33384,21 +33384,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33408,28 +33408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33438,9 +33438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -33485,10 +33485,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33497,28 +33497,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2892, col: 8, offset: 91111},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2879, col: 12, offset: 90884},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2879, col: 13, offset: 90885},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2879, col: 13, offset: 90885},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2879, col: 20, offset: 90892},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2879, col: 29, offset: 90901},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33527,9 +33527,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -33538,9 +33538,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -33596,10 +33596,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33608,28 +33608,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33638,9 +33638,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -33712,10 +33712,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33724,28 +33724,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33754,9 +33754,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -33772,9 +33772,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -33790,21 +33790,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33814,28 +33814,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33844,9 +33844,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -33911,10 +33911,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33923,28 +33923,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33953,9 +33953,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -33971,9 +33971,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -34029,10 +34029,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34041,28 +34041,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34071,9 +34071,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -34145,10 +34145,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34157,28 +34157,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34187,9 +34187,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -34205,9 +34205,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -34223,21 +34223,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34247,28 +34247,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34277,9 +34277,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -34344,10 +34344,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34356,28 +34356,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34386,9 +34386,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -34404,9 +34404,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -34462,10 +34462,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34474,28 +34474,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34504,9 +34504,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -34578,10 +34578,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34590,28 +34590,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34620,9 +34620,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -34638,9 +34638,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -34656,21 +34656,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2887, col: 11, offset: 91047},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2887, col: 13, offset: 91049,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2816, col: 13, offset: 89239},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2816, col: 13, offset: 89239},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2816, col: 13, offset: 89239},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34680,28 +34680,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34710,9 +34710,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -34777,10 +34777,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2870, col: 10, offset: 90713},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2870, col: 10, offset: 90713},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34789,28 +34789,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2892, col: 8, offset: 91111},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2879, col: 12, offset: 90884},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2879, col: 13, offset: 90885},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2879, col: 13, offset: 90885},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2879, col: 20, offset: 90892},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2879, col: 29, offset: 90901},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34819,9 +34819,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2889, col: 8, offset: 91061},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2889, col: 9, offset: 91062,
 																									},
 																								},
 																							},
@@ -34837,9 +34837,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -34850,52 +34850,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2697, col: 18, offset: 85829},
+										pos: position{line: 2715, col: 18, offset: 86303},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2715, col: 18, offset: 86303},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2698, col: 9, offset: 85839},
+													pos: position{line: 2716, col: 9, offset: 86313},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2698, col: 9, offset: 85839},
+															pos:        position{line: 2716, col: 9, offset: 86313},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 11, offset: 85875},
+															pos:        position{line: 2717, col: 11, offset: 86349},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 19, offset: 85883},
+															pos:        position{line: 2717, col: 19, offset: 86357},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 29, offset: 85893},
+															pos:        position{line: 2717, col: 29, offset: 86367},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 37, offset: 85901},
+															pos:        position{line: 2717, col: 37, offset: 86375},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 47, offset: 85911},
+															pos:        position{line: 2717, col: 47, offset: 86385},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 55, offset: 85919},
+															pos:        position{line: 2717, col: 55, offset: 86393},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34903,12 +34903,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 11, offset: 85977},
+													pos: position{line: 2718, col: 11, offset: 86451},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34917,28 +34917,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34947,36 +34947,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34985,9 +34985,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -35000,24 +35000,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2588, col: 5, offset: 82765},
+										pos: position{line: 2606, col: 5, offset: 83239},
 										run: (*parser).callonListContinuationElement1321,
 										expr: &seqExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2606, col: 5, offset: 83239},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2594, col: 19, offset: 82922},
+													pos:        position{line: 2612, col: 19, offset: 83396},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2594, col: 26, offset: 82929},
+													pos: position{line: 2612, col: 26, offset: 83403},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35026,28 +35026,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35056,20 +35056,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2589, col: 5, offset: 82789},
+													pos:   position{line: 2607, col: 5, offset: 83263},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2589, col: 11, offset: 82795},
+														pos: position{line: 2607, col: 11, offset: 83269},
 														expr: &choiceExpr{
-															pos: position{line: 2589, col: 12, offset: 82796},
+															pos: position{line: 2607, col: 12, offset: 83270},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
@@ -35078,18 +35078,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2869, col: 11, offset: 90573},
+																				pos: position{line: 2887, col: 11, offset: 91047},
 																				expr: &anyMatcher{
-																					line: 2869, col: 13, offset: 90575,
+																					line: 2887, col: 13, offset: 91049,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35098,28 +35098,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2892, col: 8, offset: 91111},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2879, col: 12, offset: 90884},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2879, col: 13, offset: 90885},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2879, col: 13, offset: 90885},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2879, col: 20, offset: 90892},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2879, col: 29, offset: 90901},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35128,9 +35128,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2889, col: 8, offset: 91061},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2889, col: 9, offset: 91062,
 																						},
 																					},
 																				},
@@ -35139,32 +35139,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2601, col: 5, offset: 83041},
+																	pos: position{line: 2619, col: 5, offset: 83515},
 																	run: (*parser).callonListContinuationElement1353,
 																	expr: &seqExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2619, col: 5, offset: 83515},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2601, col: 5, offset: 83041},
+																				pos: position{line: 2619, col: 5, offset: 83515},
 																				expr: &choiceExpr{
-																					pos: position{line: 2598, col: 22, offset: 83002},
+																					pos: position{line: 2616, col: 22, offset: 83476},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2594, col: 19, offset: 82922},
+																							pos: position{line: 2612, col: 19, offset: 83396},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2594, col: 19, offset: 82922},
+																									pos:        position{line: 2612, col: 19, offset: 83396},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2594, col: 26, offset: 82929},
+																									pos: position{line: 2612, col: 26, offset: 83403},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2870, col: 10, offset: 90713},
 																										run: (*parser).callonListContinuationElement1360,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2870, col: 10, offset: 90713},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35173,28 +35173,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonListContinuationElement1363,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35203,9 +35203,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -35213,59 +35213,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2602, col: 5, offset: 83064},
+																				pos:   position{line: 2620, col: 5, offset: 83538},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2603, col: 9, offset: 83082},
+																					pos: position{line: 2621, col: 9, offset: 83556},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2603, col: 10, offset: 83083},
+																							pos: position{line: 2621, col: 10, offset: 83557},
 																							run: (*parser).callonListContinuationElement1374,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2603, col: 10, offset: 83083},
+																								pos:   position{line: 2621, col: 10, offset: 83557},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2603, col: 17, offset: 83090},
+																									pos: position{line: 2621, col: 17, offset: 83564},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2611, col: 21, offset: 83286},
+																											pos: position{line: 2629, col: 21, offset: 83760},
 																											run: (*parser).callonListContinuationElement1377,
 																											expr: &seqExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2629, col: 21, offset: 83760},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2611, col: 21, offset: 83286},
+																														pos:   position{line: 2629, col: 21, offset: 83760},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2611, col: 27, offset: 83292},
+																															pos: position{line: 2629, col: 27, offset: 83766},
 																															expr: &actionExpr{
-																																pos: position{line: 2616, col: 5, offset: 83367},
+																																pos: position{line: 2634, col: 5, offset: 83841},
 																																run: (*parser).callonListContinuationElement1381,
 																																expr: &seqExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2634, col: 5, offset: 83841},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2616, col: 5, offset: 83367},
+																																			pos:        position{line: 2634, col: 5, offset: 83841},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2616, col: 9, offset: 83371},
+																																			pos: position{line: 2634, col: 9, offset: 83845},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2852, col: 10, offset: 90239},
+																																				pos: position{line: 2870, col: 10, offset: 90713},
 																																				run: (*parser).callonListContinuationElement1385,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2852, col: 10, offset: 90239},
+																																					pos:        position{line: 2870, col: 10, offset: 90713},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35274,21 +35274,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2616, col: 16, offset: 83378},
+																																			pos:   position{line: 2634, col: 16, offset: 83852},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2622, col: 5, offset: 83578},
+																																				pos: position{line: 2640, col: 5, offset: 84052},
 																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2622, col: 5, offset: 83578},
+																																					pos:   position{line: 2640, col: 5, offset: 84052},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2622, col: 14, offset: 83587},
+																																						pos: position{line: 2640, col: 14, offset: 84061},
 																																						run: (*parser).callonListContinuationElement1390,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2640, col: 14, offset: 84061},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2622, col: 14, offset: 83587},
+																																								pos:        position{line: 2640, col: 14, offset: 84061},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35305,28 +35305,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2874, col: 8, offset: 90637},
+																														pos: position{line: 2892, col: 8, offset: 91111},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2861, col: 12, offset: 90410},
+																																pos: position{line: 2879, col: 12, offset: 90884},
 																																run: (*parser).callonListContinuationElement1394,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2861, col: 13, offset: 90411},
+																																	pos: position{line: 2879, col: 13, offset: 90885},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 13, offset: 90411},
+																																			pos:        position{line: 2879, col: 13, offset: 90885},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 20, offset: 90418},
+																																			pos:        position{line: 2879, col: 20, offset: 90892},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 29, offset: 90427},
+																																			pos:        position{line: 2879, col: 29, offset: 90901},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35335,9 +35335,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2871, col: 8, offset: 90587},
+																																pos: position{line: 2889, col: 8, offset: 91061},
 																																expr: &anyMatcher{
-																																	line: 2871, col: 9, offset: 90588,
+																																	line: 2889, col: 9, offset: 91062,
 																																},
 																															},
 																														},
@@ -35346,40 +35346,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2628, col: 24, offset: 83723},
+																											pos: position{line: 2646, col: 24, offset: 84197},
 																											run: (*parser).callonListContinuationElement1401,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2628, col: 24, offset: 83723},
+																												pos:   position{line: 2646, col: 24, offset: 84197},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2628, col: 30, offset: 83729},
+																													pos: position{line: 2646, col: 30, offset: 84203},
 																													expr: &actionExpr{
-																														pos: position{line: 2633, col: 5, offset: 83805},
+																														pos: position{line: 2651, col: 5, offset: 84279},
 																														run: (*parser).callonListContinuationElement1404,
 																														expr: &seqExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2651, col: 5, offset: 84279},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2633, col: 5, offset: 83805},
+																																	pos: position{line: 2651, col: 5, offset: 84279},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2598, col: 22, offset: 83002},
+																																		pos: position{line: 2616, col: 22, offset: 83476},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2594, col: 19, offset: 82922},
+																																				pos: position{line: 2612, col: 19, offset: 83396},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2594, col: 19, offset: 82922},
+																																						pos:        position{line: 2612, col: 19, offset: 83396},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2594, col: 26, offset: 82929},
+																																						pos: position{line: 2612, col: 26, offset: 83403},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
+																																							pos: position{line: 2870, col: 10, offset: 90713},
 																																							run: (*parser).callonListContinuationElement1411,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2870, col: 10, offset: 90713},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35388,28 +35388,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2892, col: 8, offset: 91111},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
+																																								pos: position{line: 2879, col: 12, offset: 90884},
 																																								run: (*parser).callonListContinuationElement1414,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2879, col: 13, offset: 90885},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2879, col: 13, offset: 90885},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2879, col: 20, offset: 90892},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2879, col: 29, offset: 90901},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35418,9 +35418,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2889, col: 8, offset: 91061},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2889, col: 9, offset: 91062,
 																																								},
 																																							},
 																																						},
@@ -35428,16 +35428,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2871, col: 8, offset: 90587},
+																																				pos: position{line: 2889, col: 8, offset: 91061},
 																																				expr: &anyMatcher{
-																																					line: 2871, col: 9, offset: 90588,
+																																					line: 2889, col: 9, offset: 91062,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83828},
+																																	pos: position{line: 2652, col: 5, offset: 84302},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
 																																		run: (*parser).callonListContinuationElement1424,
@@ -35445,18 +35445,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2869, col: 11, offset: 90573},
+																																					pos: position{line: 2887, col: 11, offset: 91047},
 																																					expr: &anyMatcher{
-																																						line: 2869, col: 13, offset: 90575,
+																																						line: 2887, col: 13, offset: 91049,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2852, col: 10, offset: 90239},
+																																						pos: position{line: 2870, col: 10, offset: 90713},
 																																						run: (*parser).callonListContinuationElement1429,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2852, col: 10, offset: 90239},
+																																							pos:        position{line: 2870, col: 10, offset: 90713},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35465,28 +35465,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2874, col: 8, offset: 90637},
+																																					pos: position{line: 2892, col: 8, offset: 91111},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2861, col: 12, offset: 90410},
+																																							pos: position{line: 2879, col: 12, offset: 90884},
 																																							run: (*parser).callonListContinuationElement1432,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2861, col: 13, offset: 90411},
+																																								pos: position{line: 2879, col: 13, offset: 90885},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 13, offset: 90411},
+																																										pos:        position{line: 2879, col: 13, offset: 90885},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 20, offset: 90418},
+																																										pos:        position{line: 2879, col: 20, offset: 90892},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 29, offset: 90427},
+																																										pos:        position{line: 2879, col: 29, offset: 90901},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35495,9 +35495,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2871, col: 8, offset: 90587},
+																																							pos: position{line: 2889, col: 8, offset: 91061},
 																																							expr: &anyMatcher{
-																																								line: 2871, col: 9, offset: 90588,
+																																								line: 2889, col: 9, offset: 91062,
 																																							},
 																																						},
 																																					},
@@ -35507,17 +35507,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 5, offset: 83843},
+																																	pos:   position{line: 2653, col: 5, offset: 84317},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 12, offset: 83850},
+																																		pos: position{line: 2653, col: 12, offset: 84324},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 20, offset: 84314},
+																																			pos: position{line: 2670, col: 20, offset: 84788},
 																																			run: (*parser).callonListContinuationElement1441,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2670, col: 20, offset: 84788},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2652, col: 20, offset: 84314},
+																																					pos:        position{line: 2670, col: 20, offset: 84788},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35528,18 +35528,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2635, col: 31, offset: 83869},
+																																	pos:        position{line: 2653, col: 31, offset: 84343},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2635, col: 35, offset: 83873},
+																																	pos: position{line: 2653, col: 35, offset: 84347},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2852, col: 10, offset: 90239},
+																																		pos: position{line: 2870, col: 10, offset: 90713},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2852, col: 10, offset: 90239},
+																																			pos:        position{line: 2870, col: 10, offset: 90713},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35548,27 +35548,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2635, col: 42, offset: 83880},
+																																	pos: position{line: 2653, col: 42, offset: 84354},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 12, offset: 90410},
+																																		pos: position{line: 2879, col: 12, offset: 90884},
 																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2861, col: 13, offset: 90411},
+																																			pos: position{line: 2879, col: 13, offset: 90885},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 13, offset: 90411},
+																																					pos:        position{line: 2879, col: 13, offset: 90885},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 20, offset: 90418},
+																																					pos:        position{line: 2879, col: 20, offset: 90892},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 29, offset: 90427},
+																																					pos:        position{line: 2879, col: 29, offset: 90901},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35578,37 +35578,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 51, offset: 83889},
+																																	pos:   position{line: 2653, col: 51, offset: 84363},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84048},
+																																		pos: position{line: 2659, col: 5, offset: 84522},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84058},
+																																			pos: position{line: 2660, col: 9, offset: 84532},
 																																			run: (*parser).callonListContinuationElement1456,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2660, col: 9, offset: 84532},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2642, col: 9, offset: 84058},
+																																						pos: position{line: 2660, col: 9, offset: 84532},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2598, col: 22, offset: 83002},
+																																							pos: position{line: 2616, col: 22, offset: 83476},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2594, col: 19, offset: 82922},
+																																									pos: position{line: 2612, col: 19, offset: 83396},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2594, col: 19, offset: 82922},
+																																											pos:        position{line: 2612, col: 19, offset: 83396},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2594, col: 26, offset: 82929},
+																																											pos: position{line: 2612, col: 26, offset: 83403},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
+																																												pos: position{line: 2870, col: 10, offset: 90713},
 																																												run: (*parser).callonListContinuationElement1463,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2870, col: 10, offset: 90713},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35617,28 +35617,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2892, col: 8, offset: 91111},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
+																																													pos: position{line: 2879, col: 12, offset: 90884},
 																																													run: (*parser).callonListContinuationElement1466,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2879, col: 13, offset: 90885},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35647,9 +35647,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2889, col: 8, offset: 91061},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2889, col: 9, offset: 91062,
 																																													},
 																																												},
 																																											},
@@ -35657,16 +35657,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2889, col: 8, offset: 91061},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2889, col: 9, offset: 91062,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2643, col: 9, offset: 84085},
+																																						pos: position{line: 2661, col: 9, offset: 84559},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
 																																							run: (*parser).callonListContinuationElement1476,
@@ -35674,18 +35674,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2869, col: 11, offset: 90573},
+																																										pos: position{line: 2887, col: 11, offset: 91047},
 																																										expr: &anyMatcher{
-																																											line: 2869, col: 13, offset: 90575,
+																																											line: 2887, col: 13, offset: 91049,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2852, col: 10, offset: 90239},
+																																											pos: position{line: 2870, col: 10, offset: 90713},
 																																											run: (*parser).callonListContinuationElement1481,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2852, col: 10, offset: 90239},
+																																												pos:        position{line: 2870, col: 10, offset: 90713},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35694,28 +35694,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2874, col: 8, offset: 90637},
+																																										pos: position{line: 2892, col: 8, offset: 91111},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2861, col: 12, offset: 90410},
+																																												pos: position{line: 2879, col: 12, offset: 90884},
 																																												run: (*parser).callonListContinuationElement1484,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2861, col: 13, offset: 90411},
+																																													pos: position{line: 2879, col: 13, offset: 90885},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 13, offset: 90411},
+																																															pos:        position{line: 2879, col: 13, offset: 90885},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 20, offset: 90418},
+																																															pos:        position{line: 2879, col: 20, offset: 90892},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 29, offset: 90427},
+																																															pos:        position{line: 2879, col: 29, offset: 90901},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35724,9 +35724,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2871, col: 8, offset: 90587},
+																																												pos: position{line: 2889, col: 8, offset: 91061},
 																																												expr: &anyMatcher{
-																																													line: 2871, col: 9, offset: 90588,
+																																													line: 2889, col: 9, offset: 91062,
 																																												},
 																																											},
 																																										},
@@ -35736,22 +35736,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2644, col: 9, offset: 84104},
+																																						pos: position{line: 2662, col: 9, offset: 84578},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2644, col: 11, offset: 84106},
+																																							pos: position{line: 2662, col: 11, offset: 84580},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2644, col: 11, offset: 84106},
+																																									pos:   position{line: 2662, col: 11, offset: 84580},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2644, col: 18, offset: 84113},
+																																										pos: position{line: 2662, col: 18, offset: 84587},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2652, col: 20, offset: 84314},
+																																											pos: position{line: 2670, col: 20, offset: 84788},
 																																											run: (*parser).callonListContinuationElement1495,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2670, col: 20, offset: 84788},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2652, col: 20, offset: 84314},
+																																													pos:        position{line: 2670, col: 20, offset: 84788},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35762,7 +35762,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2644, col: 37, offset: 84132},
+																																									pos:        position{line: 2662, col: 37, offset: 84606},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35771,15 +35771,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2645, col: 9, offset: 84145},
+																																						pos:   position{line: 2663, col: 9, offset: 84619},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 18, offset: 84154},
+																																							pos: position{line: 2663, col: 18, offset: 84628},
 																																							run: (*parser).callonListContinuationElement1500,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2663, col: 18, offset: 84628},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 18, offset: 84154},
+																																									pos:        position{line: 2663, col: 18, offset: 84628},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35789,30 +35789,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2647, col: 12, offset: 84216},
+																																						pos: position{line: 2665, col: 12, offset: 84690},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2892, col: 8, offset: 91111},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
+																																									pos: position{line: 2879, col: 12, offset: 90884},
 																																									run: (*parser).callonListContinuationElement1505,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2879, col: 13, offset: 90885},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2879, col: 13, offset: 90885},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2879, col: 20, offset: 90892},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2879, col: 29, offset: 90901},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35821,9 +35821,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2889, col: 8, offset: 91061},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2889, col: 9, offset: 91062,
 																																									},
 																																								},
 																																							},
@@ -35851,18 +35851,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2887, col: 11, offset: 91047},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2887, col: 13, offset: 91049,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2870, col: 10, offset: 90713},
 																											run: (*parser).callonListContinuationElement1517,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2870, col: 10, offset: 90713},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35871,28 +35871,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2892, col: 8, offset: 91111},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
+																												pos: position{line: 2879, col: 12, offset: 90884},
 																												run: (*parser).callonListContinuationElement1520,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2879, col: 13, offset: 90885},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2879, col: 13, offset: 90885},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2879, col: 20, offset: 90892},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2879, col: 29, offset: 90901},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35901,9 +35901,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2889, col: 8, offset: 91061},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2889, col: 9, offset: 91062,
 																												},
 																											},
 																										},
@@ -35922,24 +35922,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2598, col: 22, offset: 83002},
+													pos: position{line: 2616, col: 22, offset: 83476},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2594, col: 19, offset: 82922},
+															pos: position{line: 2612, col: 19, offset: 83396},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2594, col: 19, offset: 82922},
+																	pos:        position{line: 2612, col: 19, offset: 83396},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2594, col: 26, offset: 82929},
+																	pos: position{line: 2612, col: 26, offset: 83403},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonListContinuationElement1531,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35948,28 +35948,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement1534,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35978,9 +35978,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -35988,9 +35988,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -35999,36 +35999,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2480, col: 22, offset: 79698},
 										run: (*parser).callonListContinuationElement1543,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2480, col: 22, offset: 79698},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2485, col: 31, offset: 79919},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2485, col: 36, offset: 79924},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2485, col: 37, offset: 79925},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2816, col: 13, offset: 89239},
 														run: (*parser).callonListContinuationElement1549,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2816, col: 13, offset: 89239},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2816, col: 13, offset: 89239},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36038,28 +36038,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2892, col: 8, offset: 91111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonListContinuationElement1553,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36068,9 +36068,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2889, col: 8, offset: 91061},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2889, col: 9, offset: 91062,
 															},
 														},
 													},
@@ -36161,12 +36161,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1738, col: 13, offset: 56119},
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2874, col: 11, offset: 90774},
 																							run: (*parser).callonListContinuationElement1581,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2874, col: 11, offset: 90774},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2874, col: 11, offset: 90774},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36202,18 +36202,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2887, col: 11, offset: 91047},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2887, col: 13, offset: 91049,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonListContinuationElement1593,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36222,28 +36222,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2892, col: 8, offset: 91111},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonListContinuationElement1596,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36252,9 +36252,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2889, col: 8, offset: 91061},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2889, col: 9, offset: 91062,
 																							},
 																						},
 																					},
@@ -36277,10 +36277,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1536, col: 31, offset: 49640},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonListContinuationElement1607,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36289,25 +36289,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonListContinuationElement1609,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36329,10 +36329,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1577, col: 5, offset: 50855},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonListContinuationElement1618,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36499,12 +36499,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2874, col: 11, offset: 90774},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2874, col: 11, offset: 90774},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2874, col: 11, offset: 90774},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36527,10 +36527,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1627, col: 5, offset: 52817},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2870, col: 10, offset: 90713},
 																						run: (*parser).callonListContinuationElement1659,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2870, col: 10, offset: 90713},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36571,12 +36571,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1667,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2874, col: 11, offset: 90774},
 																					run: (*parser).callonListContinuationElement1668,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2874, col: 11, offset: 90774},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2874, col: 11, offset: 90774},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36627,12 +36627,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2874, col: 11, offset: 90774},
 																					run: (*parser).callonListContinuationElement1680,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2874, col: 11, offset: 90774},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2874, col: 11, offset: 90774},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36693,28 +36693,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2892, col: 8, offset: 91111},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2879, col: 12, offset: 90884},
 																											run: (*parser).callonListContinuationElement1698,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2879, col: 13, offset: 90885},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2879, col: 13, offset: 90885},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2879, col: 20, offset: 90892},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2879, col: 29, offset: 90901},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36723,9 +36723,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2889, col: 8, offset: 91061},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2889, col: 9, offset: 91062,
 																											},
 																										},
 																									},
@@ -36782,7 +36782,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2742, col: 13, offset: 87334},
+																						pos:        position{line: 2760, col: 13, offset: 87808},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36832,10 +36832,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1729,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36844,28 +36844,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1732,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36874,9 +36874,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -36921,10 +36921,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1748,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36933,28 +36933,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1751,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36963,9 +36963,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37006,10 +37006,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1766,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37018,28 +37018,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1769,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37048,9 +37048,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37095,10 +37095,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37107,28 +37107,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37137,9 +37137,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37184,10 +37184,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1804,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37196,28 +37196,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1807,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37226,9 +37226,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37273,10 +37273,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1823,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37285,28 +37285,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1826,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37315,9 +37315,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37362,10 +37362,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37374,28 +37374,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1845,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37404,9 +37404,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37451,10 +37451,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37463,28 +37463,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1864,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37493,9 +37493,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37540,10 +37540,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2870, col: 10, offset: 90713},
 																												run: (*parser).callonListContinuationElement1880,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2870, col: 10, offset: 90713},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37552,28 +37552,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2892, col: 8, offset: 91111},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2879, col: 12, offset: 90884},
 																													run: (*parser).callonListContinuationElement1883,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2879, col: 13, offset: 90885},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2879, col: 13, offset: 90885},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2879, col: 20, offset: 90892},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2879, col: 29, offset: 90901},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37582,9 +37582,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2889, col: 8, offset: 91061},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2889, col: 9, offset: 91062,
 																													},
 																												},
 																											},
@@ -37603,12 +37603,12 @@ var g = &grammar{
 																	pos:   position{line: 1512, col: 5, offset: 49008},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
+																		pos: position{line: 2820, col: 14, offset: 89306},
 																		run: (*parser).callonListContinuationElement1891,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2820, col: 14, offset: 89306},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2820, col: 14, offset: 89306},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37618,28 +37618,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonListContinuationElement1895,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37648,9 +37648,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -37715,10 +37715,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1705, col: 66, offset: 55054},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37732,25 +37732,25 @@ var g = &grammar{
 								pos: position{line: 1705, col: 75, offset: 55063},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2879, col: 12, offset: 90884},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2879, col: 13, offset: 90885},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2879, col: 13, offset: 90885},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2879, col: 20, offset: 90892},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2879, col: 29, offset: 90901},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37759,9 +37759,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2889, col: 8, offset: 91061},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2889, col: 9, offset: 91062,
 										},
 									},
 									&ruleRefExpr{
@@ -37790,7 +37790,7 @@ var g = &grammar{
 								pos: position{line: 1746, col: 7, offset: 56318},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2742, col: 13, offset: 87334},
+										pos:        position{line: 2760, col: 13, offset: 87808},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -37809,12 +37809,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2874, col: 11, offset: 90774},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2874, col: 11, offset: 90774},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2874, col: 11, offset: 90774},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37905,12 +37905,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1738, col: 13, offset: 56119},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37941,12 +37941,12 @@ var g = &grammar{
 											pos:   position{line: 1784, col: 5, offset: 57605},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2820, col: 14, offset: 89306},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2820, col: 14, offset: 89306},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2820, col: 14, offset: 89306},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -37960,28 +37960,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2892, col: 8, offset: 91111},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2879, col: 12, offset: 90884},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2879, col: 13, offset: 90885},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2879, col: 13, offset: 90885},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2879, col: 20, offset: 90892},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2879, col: 29, offset: 90901},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -37990,9 +37990,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -38017,9 +38017,9 @@ var g = &grammar{
 										pos: position{line: 1757, col: 9, offset: 56883},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2887, col: 11, offset: 91047},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2887, col: 13, offset: 91049,
 												},
 											},
 											&notExpr{
@@ -38031,18 +38031,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2887, col: 11, offset: 91047},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2887, col: 13, offset: 91049,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38051,28 +38051,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38081,9 +38081,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -38110,7 +38110,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2760, col: 13, offset: 87808},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38160,10 +38160,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38172,28 +38172,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38202,9 +38202,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38249,10 +38249,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38261,28 +38261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38291,9 +38291,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38334,10 +38334,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38346,28 +38346,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38376,9 +38376,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38423,10 +38423,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38435,28 +38435,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38465,9 +38465,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38512,10 +38512,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38524,28 +38524,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38554,9 +38554,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38601,10 +38601,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38613,28 +38613,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38643,9 +38643,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38690,10 +38690,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38702,28 +38702,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38732,9 +38732,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38779,10 +38779,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38791,28 +38791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38821,9 +38821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38868,10 +38868,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38880,28 +38880,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2892, col: 8, offset: 91111},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2879, col: 12, offset: 90884},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2879, col: 13, offset: 90885},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2879, col: 13, offset: 90885},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2879, col: 20, offset: 90892},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2879, col: 29, offset: 90901},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38910,9 +38910,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2889, col: 8, offset: 91061},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2889, col: 9, offset: 91062,
 																								},
 																							},
 																						},
@@ -38941,10 +38941,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1536, col: 31, offset: 49640},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2870, col: 10, offset: 90713},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2870, col: 10, offset: 90713},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38953,25 +38953,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38989,36 +38989,36 @@ var g = &grammar{
 													pos: position{line: 1762, col: 15, offset: 57005},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2480, col: 22, offset: 79698},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2480, col: 22, offset: 79698},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2485, col: 31, offset: 79919},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2485, col: 36, offset: 79924},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2485, col: 37, offset: 79925},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2480, col: 49, offset: 79725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2816, col: 13, offset: 89239},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2816, col: 13, offset: 89239},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2816, col: 13, offset: 89239},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39028,28 +39028,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39058,9 +39058,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -39078,12 +39078,12 @@ var g = &grammar{
 																		pos:   position{line: 1784, col: 5, offset: 57605},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2820, col: 14, offset: 89306},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2820, col: 14, offset: 89306},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2820, col: 14, offset: 89306},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39097,28 +39097,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39127,9 +39127,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -39235,12 +39235,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1738, col: 13, offset: 56119},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2874, col: 11, offset: 90774},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2874, col: 11, offset: 90774},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2874, col: 11, offset: 90774},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39271,12 +39271,12 @@ var g = &grammar{
 											pos:   position{line: 1784, col: 5, offset: 57605},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2820, col: 14, offset: 89306},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2820, col: 14, offset: 89306},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2820, col: 14, offset: 89306},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39290,28 +39290,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2892, col: 8, offset: 91111},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2879, col: 12, offset: 90884},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2879, col: 13, offset: 90885},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2879, col: 13, offset: 90885},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2879, col: 20, offset: 90892},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2879, col: 29, offset: 90901},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39320,9 +39320,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2889, col: 8, offset: 91061},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2889, col: 9, offset: 91062,
 													},
 												},
 											},
@@ -39343,9 +39343,9 @@ var g = &grammar{
 										pos: position{line: 1773, col: 9, offset: 57311},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2887, col: 11, offset: 91047},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2887, col: 13, offset: 91049,
 												},
 											},
 											&notExpr{
@@ -39357,18 +39357,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2887, col: 11, offset: 91047},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2887, col: 13, offset: 91049,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39377,28 +39377,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2892, col: 8, offset: 91111},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2879, col: 12, offset: 90884},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2879, col: 13, offset: 90885},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2879, col: 13, offset: 90885},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2879, col: 20, offset: 90892},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2879, col: 29, offset: 90901},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39407,9 +39407,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2889, col: 8, offset: 91061},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2889, col: 9, offset: 91062,
 																		},
 																	},
 																},
@@ -39432,36 +39432,36 @@ var g = &grammar{
 													pos: position{line: 1776, col: 15, offset: 57376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2480, col: 22, offset: 79698},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2480, col: 22, offset: 79698},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2485, col: 31, offset: 79919},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2485, col: 36, offset: 79924},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2485, col: 37, offset: 79925},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2480, col: 49, offset: 79725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2816, col: 13, offset: 89239},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2816, col: 13, offset: 89239},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2816, col: 13, offset: 89239},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39471,28 +39471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39501,9 +39501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -39521,12 +39521,12 @@ var g = &grammar{
 																		pos:   position{line: 1784, col: 5, offset: 57605},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2820, col: 14, offset: 89306},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2820, col: 14, offset: 89306},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2820, col: 14, offset: 89306},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39540,28 +39540,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2892, col: 8, offset: 91111},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39570,9 +39570,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2889, col: 8, offset: 91061},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2889, col: 9, offset: 91062,
 																				},
 																			},
 																		},
@@ -39785,21 +39785,21 @@ var g = &grammar{
 				pos: position{line: 1850, col: 5, offset: 59576},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2751, col: 5, offset: 87481},
+						pos: position{line: 2769, col: 5, offset: 87955},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2751, col: 5, offset: 87481},
+							pos: position{line: 2769, col: 5, offset: 87955},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2751, col: 5, offset: 87481},
+									pos:   position{line: 2769, col: 5, offset: 87955},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2751, col: 11, offset: 87487},
+										pos: position{line: 2769, col: 11, offset: 87961},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2751, col: 11, offset: 87487},
+											pos: position{line: 2769, col: 11, offset: 87961},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 11, offset: 87487},
+												pos:        position{line: 2769, col: 11, offset: 87961},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39809,36 +39809,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2754, col: 5, offset: 87545},
+									pos: position{line: 2772, col: 5, offset: 88019},
 									expr: &seqExpr{
-										pos: position{line: 2755, col: 9, offset: 87556},
+										pos: position{line: 2773, col: 9, offset: 88030},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2755, col: 9, offset: 87556},
+												pos:        position{line: 2773, col: 9, offset: 88030},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2756, col: 9, offset: 87605},
+												pos: position{line: 2774, col: 9, offset: 88079},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2760, col: 5, offset: 87685},
+									pos: position{line: 2778, col: 5, offset: 88159},
 									expr: &seqExpr{
-										pos: position{line: 2761, col: 9, offset: 87696},
+										pos: position{line: 2779, col: 9, offset: 88170},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2761, col: 9, offset: 87696},
+												pos:        position{line: 2779, col: 9, offset: 88170},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2761, col: 13, offset: 87700},
+												pos:        position{line: 2779, col: 13, offset: 88174},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39851,12 +39851,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2856, col: 11, offset: 90300},
+						pos: position{line: 2874, col: 11, offset: 90774},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2874, col: 11, offset: 90774},
 							expr: &charClassMatcher{
-								pos:        position{line: 2856, col: 11, offset: 90300},
+								pos:        position{line: 2874, col: 11, offset: 90774},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -39869,21 +39869,21 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79941},
+						pos: position{line: 2498, col: 5, offset: 80415},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79941},
+							pos: position{line: 2498, col: 5, offset: 80415},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79941},
+									pos:        position{line: 2498, col: 5, offset: 80415},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79946},
+									pos: position{line: 2498, col: 10, offset: 80420},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79947},
+										pos:        position{line: 2498, col: 11, offset: 80421},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39894,29 +39894,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80139},
+						pos: position{line: 2504, col: 5, offset: 80613},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80139},
+							pos: position{line: 2504, col: 5, offset: 80613},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80139},
+									pos: position{line: 2504, col: 5, offset: 80613},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80210},
+									pos: position{line: 2507, col: 5, offset: 80684},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80335},
+									pos:        position{line: 2511, col: 5, offset: 80809},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80339},
+									pos: position{line: 2511, col: 9, offset: 80813},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80340},
+										pos:        position{line: 2511, col: 10, offset: 80814},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39927,27 +39927,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2769, col: 5, offset: 87893},
+						pos: position{line: 2787, col: 5, offset: 88367},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2770, col: 9, offset: 87903},
+							pos: position{line: 2788, col: 9, offset: 88377},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2770, col: 10, offset: 87904},
+									pos:        position{line: 2788, col: 10, offset: 88378},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2772, col: 13, offset: 88001},
+									pos: position{line: 2790, col: 13, offset: 88475},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2772, col: 13, offset: 88001},
+											pos: position{line: 2790, col: 13, offset: 88475},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2775, col: 13, offset: 88101},
+											pos:        position{line: 2793, col: 13, offset: 88575},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -39955,20 +39955,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2775, col: 19, offset: 88107},
+									pos:        position{line: 2793, col: 19, offset: 88581},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2778, col: 13, offset: 88145},
+									pos: position{line: 2796, col: 13, offset: 88619},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2778, col: 13, offset: 88145},
+											pos: position{line: 2796, col: 13, offset: 88619},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2781, col: 14, offset: 88238},
+											pos:        position{line: 2799, col: 14, offset: 88712},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -39977,18 +39977,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2783, col: 12, offset: 88282},
+									pos: position{line: 2801, col: 12, offset: 88756},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2783, col: 12, offset: 88282},
+											pos:        position{line: 2801, col: 12, offset: 88756},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2783, col: 16, offset: 88286},
+											pos: position{line: 2801, col: 16, offset: 88760},
 											expr: &litMatcher{
-												pos:        position{line: 2783, col: 17, offset: 88287},
+												pos:        position{line: 2801, col: 17, offset: 88761},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40346,31 +40346,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 18, offset: 90510},
+						pos: position{line: 2883, col: 18, offset: 90984},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2865, col: 18, offset: 90510},
+							pos: position{line: 2883, col: 18, offset: 90984},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40379,27 +40379,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2865, col: 26, offset: 90518},
+									pos: position{line: 2883, col: 26, offset: 90992},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2879, col: 12, offset: 90884},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2879, col: 13, offset: 90885},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2879, col: 13, offset: 90885},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2879, col: 20, offset: 90892},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2879, col: 29, offset: 90901},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40420,23 +40420,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78770},
+						pos: position{line: 2467, col: 5, offset: 79244},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78770},
+							pos: position{line: 2467, col: 5, offset: 79244},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2467, col: 5, offset: 79244},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78846},
+									pos:   position{line: 2470, col: 5, offset: 79320},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78864},
+										pos: position{line: 2471, col: 9, offset: 79338},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78865},
+											pos:        position{line: 2471, col: 10, offset: 79339},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40487,10 +40487,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2791, col: 12, offset: 88547},
+						pos: position{line: 2809, col: 12, offset: 89021},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2791, col: 12, offset: 88547},
+							pos:        position{line: 2809, col: 12, offset: 89021},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40554,9 +40554,9 @@ var g = &grammar{
 					pos: position{line: 1886, col: 5, offset: 60657},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -40643,7 +40643,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1911, col: 7, offset: 61382},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2760, col: 13, offset: 87808},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40667,10 +40667,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1921, col: 5, offset: 61667},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40707,9 +40707,9 @@ var g = &grammar{
 					pos: position{line: 1930, col: 5, offset: 61926},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -40741,7 +40741,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1911, col: 7, offset: 61382},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2760, col: 13, offset: 87808},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40976,9 +40976,9 @@ var g = &grammar{
 					pos: position{line: 1975, col: 5, offset: 63579},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -41065,7 +41065,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2001, col: 7, offset: 64310},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2760, col: 13, offset: 87808},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41089,10 +41089,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2011, col: 5, offset: 64607},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41129,9 +41129,9 @@ var g = &grammar{
 					pos: position{line: 2020, col: 5, offset: 64869},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -41163,7 +41163,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2001, col: 7, offset: 64310},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2760, col: 13, offset: 87808},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41398,9 +41398,9 @@ var g = &grammar{
 					pos: position{line: 2065, col: 5, offset: 66698},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -41452,7 +41452,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2092, col: 7, offset: 67491},
 							expr: &charClassMatcher{
-								pos:        position{line: 2742, col: 13, offset: 87334},
+								pos:        position{line: 2760, col: 13, offset: 87808},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41522,10 +41522,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2103, col: 5, offset: 67812},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41562,9 +41562,9 @@ var g = &grammar{
 					pos: position{line: 2112, col: 5, offset: 68080},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -41798,9 +41798,9 @@ var g = &grammar{
 					pos: position{line: 2157, col: 5, offset: 69792},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -41887,7 +41887,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2182, col: 7, offset: 70521},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2760, col: 13, offset: 87808},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41911,10 +41911,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2192, col: 5, offset: 70818},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2870, col: 10, offset: 90713},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2870, col: 10, offset: 90713},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41951,9 +41951,9 @@ var g = &grammar{
 					pos: position{line: 2201, col: 5, offset: 71081},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&notExpr{
@@ -41985,7 +41985,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2182, col: 7, offset: 70521},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2760, col: 13, offset: 87808},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42212,14 +42212,69 @@ var g = &grammar{
 					&actionExpr{
 						pos: position{line: 2237, col: 21, offset: 72487},
 						run: (*parser).callonSubscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2237, col: 21, offset: 72487},
-							expr: &charClassMatcher{
-								pos:        position{line: 2237, col: 21, offset: 72487},
-								val:        "[^\\r\\n ~]",
-								chars:      []rune{'\r', '\n', ' ', '~'},
-								ignoreCase: false,
-								inverted:   true,
+						expr: &labeledExpr{
+							pos:   position{line: 2237, col: 21, offset: 72487},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2237, col: 30, offset: 72496},
+								expr: &choiceExpr{
+									pos: position{line: 2242, col: 5, offset: 72630},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2242, col: 5, offset: 72630},
+											run: (*parser).callonSubscriptTextElement7,
+											expr: &oneOrMoreExpr{
+												pos: position{line: 2242, col: 5, offset: 72630},
+												expr: &charClassMatcher{
+													pos:        position{line: 2242, col: 5, offset: 72630},
+													val:        "[^\\r\\n ~<>&]",
+													chars:      []rune{'\r', '\n', ' ', '~', '<', '>', '&'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2467, col: 5, offset: 79244},
+											run: (*parser).callonSubscriptTextElement10,
+											expr: &seqExpr{
+												pos: position{line: 2467, col: 5, offset: 79244},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2467, col: 5, offset: 79244},
+														run: (*parser).callonSubscriptTextElement12,
+													},
+													&labeledExpr{
+														pos:   position{line: 2470, col: 5, offset: 79320},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2471, col: 9, offset: 79338},
+															run: (*parser).callonSubscriptTextElement14,
+															expr: &charClassMatcher{
+																pos:        position{line: 2471, col: 10, offset: 79339},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2246, col: 7, offset: 72708},
+											run: (*parser).callonSubscriptTextElement16,
+											expr: &charClassMatcher{
+												pos:        position{line: 2246, col: 7, offset: 72708},
+												val:        "[<>&]",
+												chars:      []rune{'<', '>', '&'},
+												ignoreCase: false,
+												inverted:   false,
+											},
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42228,15 +42283,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72572},
+			pos:  position{line: 2250, col: 1, offset: 72807},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72639},
+				pos: position{line: 2252, col: 5, offset: 72874},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72639},
+					pos: position{line: 2252, col: 5, offset: 72874},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72639},
+							pos:   position{line: 2252, col: 5, offset: 72874},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1841, col: 25, offset: 59423},
@@ -42259,10 +42314,10 @@ var g = &grammar{
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72707},
+							pos:   position{line: 2254, col: 5, offset: 72942},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72716},
+								pos:  position{line: 2254, col: 14, offset: 72951},
 								name: "SubscriptTextElement",
 							},
 						},
@@ -42278,29 +42333,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72979},
+			pos:  position{line: 2262, col: 1, offset: 73214},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73003},
+				pos: position{line: 2263, col: 5, offset: 73238},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73003},
+					pos: position{line: 2263, col: 5, offset: 73238},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73465},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73033},
+							pos:   position{line: 2264, col: 5, offset: 73268},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73042},
+								pos:  position{line: 2264, col: 14, offset: 73277},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73465},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42311,25 +42366,80 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73235},
+			pos:  position{line: 2271, col: 1, offset: 73470},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73261},
+				pos: position{line: 2271, col: 27, offset: 73496},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73261},
+						pos:  position{line: 2271, col: 27, offset: 73496},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73317},
+						pos: position{line: 2273, col: 23, offset: 73552},
 						run: (*parser).callonSuperscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 23, offset: 73317},
-							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 23, offset: 73317},
-								val:        "[^\\r\\n ^]",
-								chars:      []rune{'\r', '\n', ' ', '^'},
-								ignoreCase: false,
-								inverted:   true,
+						expr: &labeledExpr{
+							pos:   position{line: 2273, col: 23, offset: 73552},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2273, col: 32, offset: 73561},
+								expr: &choiceExpr{
+									pos: position{line: 2278, col: 5, offset: 73699},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2278, col: 5, offset: 73699},
+											run: (*parser).callonSuperscriptTextElement7,
+											expr: &oneOrMoreExpr{
+												pos: position{line: 2278, col: 5, offset: 73699},
+												expr: &charClassMatcher{
+													pos:        position{line: 2278, col: 5, offset: 73699},
+													val:        "[^\\r\\n ^<>&]",
+													chars:      []rune{'\r', '\n', ' ', '^', '<', '>', '&'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2467, col: 5, offset: 79244},
+											run: (*parser).callonSuperscriptTextElement10,
+											expr: &seqExpr{
+												pos: position{line: 2467, col: 5, offset: 79244},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2467, col: 5, offset: 79244},
+														run: (*parser).callonSuperscriptTextElement12,
+													},
+													&labeledExpr{
+														pos:   position{line: 2470, col: 5, offset: 79320},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2471, col: 9, offset: 79338},
+															run: (*parser).callonSuperscriptTextElement14,
+															expr: &charClassMatcher{
+																pos:        position{line: 2471, col: 10, offset: 79339},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2282, col: 7, offset: 73777},
+											run: (*parser).callonSuperscriptTextElement16,
+											expr: &charClassMatcher{
+												pos:        position{line: 2282, col: 7, offset: 73777},
+												val:        "[<>&]",
+												chars:      []rune{'<', '>', '&'},
+												ignoreCase: false,
+												inverted:   false,
+											},
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42338,15 +42448,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73402},
+			pos:  position{line: 2286, col: 1, offset: 73876},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73474},
+				pos: position{line: 2288, col: 5, offset: 73948},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73474},
+					pos: position{line: 2288, col: 5, offset: 73948},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73474},
+							pos:   position{line: 2288, col: 5, offset: 73948},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1841, col: 25, offset: 59423},
@@ -42363,21 +42473,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73465},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73544},
+							pos:   position{line: 2290, col: 5, offset: 74018},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73553},
+								pos:  position{line: 2290, col: 14, offset: 74027},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73465},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42388,27 +42498,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74022},
+			pos:  position{line: 2299, col: 1, offset: 74496},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74038},
+				pos: position{line: 2300, col: 5, offset: 74512},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74038},
+					pos: position{line: 2300, col: 5, offset: 74512},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74038},
+							pos: position{line: 2300, col: 5, offset: 74512},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74101},
+							pos:   position{line: 2303, col: 5, offset: 74575},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74108},
+								pos: position{line: 2303, col: 12, offset: 74582},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74108},
+									pos: position{line: 2303, col: 12, offset: 74582},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74109},
+										pos:        position{line: 2303, col: 13, offset: 74583},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42417,16 +42527,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74217},
+							pos: position{line: 2307, col: 5, offset: 74691},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2874, col: 11, offset: 90774},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2874, col: 11, offset: 90774},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2874, col: 11, offset: 90774},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42435,36 +42545,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74376},
+							pos:   position{line: 2311, col: 12, offset: 74850},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74383},
+								pos:  position{line: 2311, col: 19, offset: 74857},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42473,9 +42583,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -42486,24 +42596,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74479},
+			pos:  position{line: 2315, col: 1, offset: 74953},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74500},
+				pos: position{line: 2316, col: 5, offset: 74974},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74500},
+					pos: position{line: 2316, col: 5, offset: 74974},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74500},
+							pos: position{line: 2316, col: 5, offset: 74974},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74615},
+							pos:   position{line: 2321, col: 5, offset: 75089},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74624},
+								pos: position{line: 2321, col: 14, offset: 75098},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74625},
+									pos:  position{line: 2321, col: 15, offset: 75099},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42514,38 +42624,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74706},
+			pos:  position{line: 2325, col: 1, offset: 75180},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74733},
+				pos: position{line: 2326, col: 5, offset: 75207},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74733},
+					pos: position{line: 2326, col: 5, offset: 75207},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74733},
+							pos: position{line: 2326, col: 5, offset: 75207},
 							expr: &choiceExpr{
-								pos: position{line: 2874, col: 8, offset: 90637},
+								pos: position{line: 2892, col: 8, offset: 91111},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2879, col: 12, offset: 90884},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2879, col: 13, offset: 90885},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2879, col: 13, offset: 90885},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2879, col: 20, offset: 90892},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2879, col: 29, offset: 90901},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42554,36 +42664,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2889, col: 8, offset: 91061},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2889, col: 9, offset: 91062,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74742},
+							pos:   position{line: 2327, col: 5, offset: 75216},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74760},
+								pos: position{line: 2328, col: 9, offset: 75234},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2769, col: 5, offset: 87955},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2769, col: 5, offset: 87955},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2769, col: 5, offset: 87955},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2769, col: 11, offset: 87961},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2769, col: 11, offset: 87961},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2769, col: 11, offset: 87961},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42593,36 +42703,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2772, col: 5, offset: 88019},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2773, col: 9, offset: 88030},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2773, col: 9, offset: 88030},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2774, col: 9, offset: 88079},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2778, col: 5, offset: 88159},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2779, col: 9, offset: 88170},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2779, col: 9, offset: 88170},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2779, col: 13, offset: 88174},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42635,12 +42745,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2874, col: 11, offset: 90774},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2874, col: 11, offset: 90774},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2874, col: 11, offset: 90774},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42649,21 +42759,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2498, col: 5, offset: 80415},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2498, col: 5, offset: 80415},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2498, col: 5, offset: 80415},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2498, col: 10, offset: 80420},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2498, col: 11, offset: 80421},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42674,29 +42784,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2504, col: 5, offset: 80613},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2504, col: 5, offset: 80613},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2504, col: 5, offset: 80613},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2507, col: 5, offset: 80684},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2511, col: 5, offset: 80809},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2511, col: 9, offset: 80813},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2511, col: 10, offset: 80814},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42707,31 +42817,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74825},
+										pos:  position{line: 2331, col: 11, offset: 75299},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2787, col: 5, offset: 88367},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2788, col: 9, offset: 88377},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2788, col: 10, offset: 88378},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2790, col: 13, offset: 88475},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2790, col: 13, offset: 88475},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2793, col: 13, offset: 88575},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42739,20 +42849,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2793, col: 19, offset: 88581},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2796, col: 13, offset: 88619},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2796, col: 13, offset: 88619},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2799, col: 14, offset: 88712},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42761,18 +42871,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2801, col: 12, offset: 88756},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2801, col: 12, offset: 88756},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2801, col: 16, offset: 88760},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2801, col: 17, offset: 88761},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -42784,35 +42894,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74898},
+										pos:  position{line: 2333, col: 11, offset: 75372},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74914},
+										pos:  position{line: 2334, col: 11, offset: 75388},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74942},
+										pos:  position{line: 2335, col: 11, offset: 75416},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2467, col: 5, offset: 79244},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2467, col: 5, offset: 79244},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2467, col: 5, offset: 79244},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2470, col: 5, offset: 79320},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2471, col: 9, offset: 79338},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2471, col: 10, offset: 79339},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -42824,7 +42934,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75027},
+										pos:  position{line: 2337, col: 11, offset: 75501},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43213,17 +43323,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75480},
+										pos: position{line: 2350, col: 5, offset: 75954},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75480},
+											pos: position{line: 2350, col: 5, offset: 75954},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75480},
+													pos: position{line: 2350, col: 5, offset: 75954},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75535},
+													pos:   position{line: 2353, col: 5, offset: 76009},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43677,12 +43787,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75556},
+													pos: position{line: 2353, col: 26, offset: 76030},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2870, col: 10, offset: 90713},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2870, col: 10, offset: 90713},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43691,30 +43801,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75563},
+													pos: position{line: 2353, col: 33, offset: 76037},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2892, col: 8, offset: 91111},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2879, col: 12, offset: 90884},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2879, col: 13, offset: 90885},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2879, col: 13, offset: 90885},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2879, col: 20, offset: 90892},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2879, col: 29, offset: 90901},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43723,9 +43833,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2889, col: 8, offset: 91061},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2889, col: 9, offset: 91062,
 																},
 															},
 														},
@@ -43750,12 +43860,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2855, col: 7, offset: 90365},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2855, col: 7, offset: 90365},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2855, col: 7, offset: 90365},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43789,12 +43899,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2855, col: 7, offset: 90365},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2855, col: 7, offset: 90365},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2855, col: 7, offset: 90365},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43813,14 +43923,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75281},
+										pos:  position{line: 2342, col: 11, offset: 75755},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2809, col: 12, offset: 89021},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2809, col: 12, offset: 89021},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43836,52 +43946,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75825},
+			pos:  position{line: 2363, col: 1, offset: 76299},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75912},
+				pos: position{line: 2364, col: 5, offset: 76386},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75912},
+					pos: position{line: 2364, col: 5, offset: 76386},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75912},
+							pos:   position{line: 2364, col: 5, offset: 76386},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75921},
+								pos: position{line: 2364, col: 14, offset: 76395},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75947},
+									pos: position{line: 2366, col: 9, offset: 76421},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75947},
+										pos: position{line: 2366, col: 9, offset: 76421},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2887, col: 11, offset: 91047},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2887, col: 13, offset: 91049,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75962},
+												pos:   position{line: 2367, col: 9, offset: 76436},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75984},
+													pos: position{line: 2368, col: 13, offset: 76458},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2751, col: 5, offset: 87481},
+															pos: position{line: 2769, col: 5, offset: 87955},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2751, col: 5, offset: 87481},
+																pos: position{line: 2769, col: 5, offset: 87955},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2751, col: 5, offset: 87481},
+																		pos:   position{line: 2769, col: 5, offset: 87955},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2751, col: 11, offset: 87487},
+																			pos: position{line: 2769, col: 11, offset: 87961},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2751, col: 11, offset: 87487},
+																				pos: position{line: 2769, col: 11, offset: 87961},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2751, col: 11, offset: 87487},
+																					pos:        position{line: 2769, col: 11, offset: 87961},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -43891,36 +44001,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2754, col: 5, offset: 87545},
+																		pos: position{line: 2772, col: 5, offset: 88019},
 																		expr: &seqExpr{
-																			pos: position{line: 2755, col: 9, offset: 87556},
+																			pos: position{line: 2773, col: 9, offset: 88030},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2755, col: 9, offset: 87556},
+																					pos:        position{line: 2773, col: 9, offset: 88030},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2756, col: 9, offset: 87605},
+																					pos: position{line: 2774, col: 9, offset: 88079},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2760, col: 5, offset: 87685},
+																		pos: position{line: 2778, col: 5, offset: 88159},
 																		expr: &seqExpr{
-																			pos: position{line: 2761, col: 9, offset: 87696},
+																			pos: position{line: 2779, col: 9, offset: 88170},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2761, col: 9, offset: 87696},
+																					pos:        position{line: 2779, col: 9, offset: 88170},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2761, col: 13, offset: 87700},
+																					pos:        position{line: 2779, col: 13, offset: 88174},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -43933,12 +44043,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90300},
+															pos: position{line: 2874, col: 11, offset: 90774},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2856, col: 11, offset: 90300},
+																pos: position{line: 2874, col: 11, offset: 90774},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 11, offset: 90300},
+																	pos:        position{line: 2874, col: 11, offset: 90774},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -43947,25 +44057,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76030},
+															pos:  position{line: 2370, col: 15, offset: 76504},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79941},
+															pos: position{line: 2498, col: 5, offset: 80415},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79941},
+																pos: position{line: 2498, col: 5, offset: 80415},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79941},
+																		pos:        position{line: 2498, col: 5, offset: 80415},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79946},
+																		pos: position{line: 2498, col: 10, offset: 80420},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79947},
+																			pos:        position{line: 2498, col: 11, offset: 80421},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -43976,29 +44086,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80139},
+															pos: position{line: 2504, col: 5, offset: 80613},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80139},
+																pos: position{line: 2504, col: 5, offset: 80613},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80139},
+																		pos: position{line: 2504, col: 5, offset: 80613},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80210},
+																		pos: position{line: 2507, col: 5, offset: 80684},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80335},
+																		pos:        position{line: 2511, col: 5, offset: 80809},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80339},
+																		pos: position{line: 2511, col: 9, offset: 80813},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80340},
+																			pos:        position{line: 2511, col: 10, offset: 80814},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44009,27 +44119,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2769, col: 5, offset: 87893},
+															pos: position{line: 2787, col: 5, offset: 88367},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2770, col: 9, offset: 87903},
+																pos: position{line: 2788, col: 9, offset: 88377},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2770, col: 10, offset: 87904},
+																		pos:        position{line: 2788, col: 10, offset: 88378},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2772, col: 13, offset: 88001},
+																		pos: position{line: 2790, col: 13, offset: 88475},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2772, col: 13, offset: 88001},
+																				pos: position{line: 2790, col: 13, offset: 88475},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2775, col: 13, offset: 88101},
+																				pos:        position{line: 2793, col: 13, offset: 88575},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44037,20 +44147,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2775, col: 19, offset: 88107},
+																		pos:        position{line: 2793, col: 19, offset: 88581},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2778, col: 13, offset: 88145},
+																		pos: position{line: 2796, col: 13, offset: 88619},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2778, col: 13, offset: 88145},
+																				pos: position{line: 2796, col: 13, offset: 88619},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2781, col: 14, offset: 88238},
+																				pos:        position{line: 2799, col: 14, offset: 88712},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44059,18 +44169,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2783, col: 12, offset: 88282},
+																		pos: position{line: 2801, col: 12, offset: 88756},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2783, col: 12, offset: 88282},
+																				pos:        position{line: 2801, col: 12, offset: 88756},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2783, col: 16, offset: 88286},
+																				pos: position{line: 2801, col: 16, offset: 88760},
 																				expr: &litMatcher{
-																					pos:        position{line: 2783, col: 17, offset: 88287},
+																					pos:        position{line: 2801, col: 17, offset: 88761},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44082,25 +44192,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2879, col: 12, offset: 90884},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2879, col: 13, offset: 90885},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2879, col: 13, offset: 90885},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2879, col: 20, offset: 90892},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2879, col: 29, offset: 90901},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44455,35 +44565,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76197},
+															pos:  position{line: 2375, col: 15, offset: 76671},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76217},
+															pos:  position{line: 2376, col: 15, offset: 76691},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76306},
+															pos:  position{line: 2377, col: 15, offset: 76780},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78770},
+															pos: position{line: 2467, col: 5, offset: 79244},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78770},
+																pos: position{line: 2467, col: 5, offset: 79244},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78770},
+																		pos: position{line: 2467, col: 5, offset: 79244},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78846},
+																		pos:   position{line: 2470, col: 5, offset: 79320},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78864},
+																			pos: position{line: 2471, col: 9, offset: 79338},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78865},
+																				pos:        position{line: 2471, col: 10, offset: 79339},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44517,10 +44627,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37589},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44531,28 +44641,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37596},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2892, col: 8, offset: 91111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44561,9 +44671,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2889, col: 8, offset: 91061},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2889, col: 9, offset: 91062,
 																					},
 																				},
 																			},
@@ -44573,7 +44683,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76488},
+															pos:  position{line: 2380, col: 15, offset: 76962},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -44616,10 +44726,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2791, col: 12, offset: 88547},
+															pos: position{line: 2809, col: 12, offset: 89021},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 12, offset: 88547},
+																pos:        position{line: 2809, col: 12, offset: 89021},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44635,9 +44745,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -44646,28 +44756,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76926},
+			pos:  position{line: 2391, col: 1, offset: 77400},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76959},
+				pos: position{line: 2392, col: 5, offset: 77433},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76959},
+					pos: position{line: 2392, col: 5, offset: 77433},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76959},
+							pos:   position{line: 2392, col: 5, offset: 77433},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76968},
+								pos: position{line: 2392, col: 14, offset: 77442},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76969},
+									pos:  position{line: 2392, col: 15, offset: 77443},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -44676,41 +44786,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77066},
+			pos:  position{line: 2396, col: 1, offset: 77540},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77106},
+				pos: position{line: 2397, col: 5, offset: 77580},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77106},
+					pos: position{line: 2397, col: 5, offset: 77580},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2887, col: 11, offset: 91047},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2887, col: 13, offset: 91049,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77117},
+							pos:   position{line: 2398, col: 5, offset: 77591},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77135},
+								pos: position{line: 2399, col: 9, offset: 77609},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2769, col: 5, offset: 87955},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2769, col: 5, offset: 87955},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2769, col: 5, offset: 87955},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2769, col: 11, offset: 87961},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2769, col: 11, offset: 87961},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2769, col: 11, offset: 87961},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44720,36 +44830,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2772, col: 5, offset: 88019},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2773, col: 9, offset: 88030},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2773, col: 9, offset: 88030},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2774, col: 9, offset: 88079},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2778, col: 5, offset: 88159},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2779, col: 9, offset: 88170},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2779, col: 9, offset: 88170},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2779, col: 13, offset: 88174},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44762,10 +44872,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2870, col: 10, offset: 90713},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2870, col: 10, offset: 90713},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -44773,31 +44883,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77173},
+										pos:  position{line: 2401, col: 11, offset: 77647},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2787, col: 5, offset: 88367},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2788, col: 9, offset: 88377},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2788, col: 10, offset: 88378},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2790, col: 13, offset: 88475},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2790, col: 13, offset: 88475},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2793, col: 13, offset: 88575},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44805,20 +44915,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2793, col: 19, offset: 88581},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2796, col: 13, offset: 88619},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2796, col: 13, offset: 88619},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2799, col: 14, offset: 88712},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44827,18 +44937,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2801, col: 12, offset: 88756},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2801, col: 12, offset: 88756},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2801, col: 16, offset: 88760},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2801, col: 17, offset: 88761},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44850,31 +44960,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77246},
+										pos:  position{line: 2403, col: 11, offset: 77720},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77262},
+										pos:  position{line: 2404, col: 11, offset: 77736},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2467, col: 5, offset: 79244},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2467, col: 5, offset: 79244},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2467, col: 5, offset: 79244},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2470, col: 5, offset: 79320},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2471, col: 9, offset: 79338},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2471, col: 10, offset: 79339},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44925,25 +45035,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2879, col: 12, offset: 90884},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2879, col: 13, offset: 90885},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2879, col: 13, offset: 90885},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2879, col: 20, offset: 90892},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2879, col: 29, offset: 90901},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44952,10 +45062,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2809, col: 12, offset: 89021},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2809, col: 12, offset: 89021},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44971,49 +45081,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77532},
+			pos:  position{line: 2415, col: 1, offset: 78006},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77614},
+				pos: position{line: 2417, col: 5, offset: 78088},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77614},
+					pos: position{line: 2417, col: 5, offset: 78088},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77614},
+							pos: position{line: 2417, col: 5, offset: 78088},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77679},
+							pos:   position{line: 2420, col: 5, offset: 78153},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77697},
+								pos: position{line: 2421, col: 9, offset: 78171},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77697},
+										pos:  position{line: 2421, col: 9, offset: 78171},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77718},
+										pos:  position{line: 2422, col: 11, offset: 78192},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77741},
+										pos:  position{line: 2423, col: 11, offset: 78215},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77757},
+										pos:  position{line: 2424, col: 11, offset: 78231},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77786},
+										pos:  position{line: 2425, col: 11, offset: 78260},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77812},
+										pos:  position{line: 2426, col: 11, offset: 78286},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77838},
+										pos:  position{line: 2427, col: 11, offset: 78312},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45032,12 +45142,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2855, col: 7, offset: 90365},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2855, col: 7, offset: 90365},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2855, col: 7, offset: 90365},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45071,12 +45181,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2855, col: 7, offset: 90365},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2855, col: 7, offset: 90365},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2855, col: 7, offset: 90365},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45118,17 +45228,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40695},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2760, col: 13, offset: 87808},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2870, col: 10, offset: 90713},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2870, col: 10, offset: 90713},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45154,10 +45264,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40409},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45174,10 +45284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40420},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45197,17 +45307,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2760, col: 13, offset: 87808},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45238,10 +45348,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40501},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45258,10 +45368,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40512},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2870, col: 10, offset: 90713},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2870, col: 10, offset: 90713},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45281,17 +45391,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2760, col: 13, offset: 87808},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2870, col: 10, offset: 90713},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2870, col: 10, offset: 90713},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45318,15 +45428,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77917},
+										pos:  position{line: 2430, col: 11, offset: 78391},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77937},
+										pos:  position{line: 2431, col: 11, offset: 78411},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77960},
+										pos:  position{line: 2432, col: 11, offset: 78434},
 										name: "InlineMenu",
 									},
 								},
@@ -45338,22 +45448,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78017},
+			pos:  position{line: 2436, col: 1, offset: 78491},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78105},
+				pos: position{line: 2438, col: 5, offset: 78579},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78105},
+					pos: position{line: 2438, col: 5, offset: 78579},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78105},
+							pos: position{line: 2438, col: 5, offset: 78579},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78182},
+							pos:   position{line: 2441, col: 5, offset: 78656},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78200},
+								pos: position{line: 2442, col: 9, offset: 78674},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 43964},
@@ -45408,10 +45518,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44410},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2870, col: 10, offset: 90713},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2870, col: 10, offset: 90713},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45422,25 +45532,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44417},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2879, col: 12, offset: 90884},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2879, col: 13, offset: 90885},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2879, col: 13, offset: 90885},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2879, col: 20, offset: 90892},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2879, col: 29, offset: 90901},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45477,7 +45587,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44059},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2760, col: 13, offset: 87808},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45523,10 +45633,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43519},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45537,25 +45647,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43526},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45578,12 +45688,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43541},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2874, col: 11, offset: 90774},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2874, col: 11, offset: 90774},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2874, col: 11, offset: 90774},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45612,25 +45722,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43606},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2879, col: 12, offset: 90884},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2879, col: 13, offset: 90885},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2879, col: 13, offset: 90885},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2879, col: 20, offset: 90892},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2879, col: 29, offset: 90901},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45657,10 +45767,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43766},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2870, col: 10, offset: 90713},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2870, col: 10, offset: 90713},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45671,25 +45781,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43773},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2879, col: 12, offset: 90884},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2879, col: 13, offset: 90885},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2879, col: 13, offset: 90885},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2879, col: 20, offset: 90892},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2879, col: 29, offset: 90901},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45725,7 +45835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43342},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2760, col: 13, offset: 87808},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45736,7 +45846,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78248},
+										pos:  position{line: 2442, col: 57, offset: 78722},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45748,16 +45858,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78308},
+			pos:  position{line: 2447, col: 1, offset: 78782},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78384},
+				pos: position{line: 2449, col: 5, offset: 78858},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78384},
+						pos: position{line: 2449, col: 5, offset: 78858},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78449},
+						pos:  position{line: 2452, col: 5, offset: 78923},
 						name: "QuotedText",
 					},
 				},
@@ -45765,22 +45875,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78462},
+			pos:  position{line: 2454, col: 1, offset: 78936},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78544},
+				pos: position{line: 2456, col: 5, offset: 79018},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78544},
+					pos: position{line: 2456, col: 5, offset: 79018},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78544},
+							pos: position{line: 2456, col: 5, offset: 79018},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78615},
+							pos:   position{line: 2459, col: 5, offset: 79089},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78633},
+								pos:  position{line: 2460, col: 9, offset: 79107},
 								name: "Symbol",
 							},
 						},
@@ -45790,103 +45900,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80392},
+			pos:  position{line: 2515, col: 1, offset: 80866},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80422},
+				pos: position{line: 2517, col: 5, offset: 80896},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80422},
+						pos: position{line: 2517, col: 5, offset: 80896},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80422},
+							pos: position{line: 2517, col: 5, offset: 80896},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80422},
+									pos:        position{line: 2517, col: 5, offset: 80896},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80427},
+									pos: position{line: 2517, col: 10, offset: 80901},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80427},
+											pos:  position{line: 2517, col: 10, offset: 80901},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81531},
+											pos: position{line: 2546, col: 14, offset: 82005},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81531},
+												pos:        position{line: 2546, col: 14, offset: 82005},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81597},
+											pos: position{line: 2550, col: 14, offset: 82071},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81597},
+												pos:        position{line: 2550, col: 14, offset: 82071},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81666},
+											pos: position{line: 2554, col: 15, offset: 82140},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81666},
+												pos:        position{line: 2554, col: 15, offset: 82140},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81731},
+											pos: position{line: 2558, col: 13, offset: 82205},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81731},
+												pos:        position{line: 2558, col: 13, offset: 82205},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 21, offset: 82301},
+											pos: position{line: 2586, col: 21, offset: 82775},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2568, col: 21, offset: 82301},
+												pos:        position{line: 2586, col: 21, offset: 82775},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 5, offset: 81887},
+											pos: position{line: 2565, col: 5, offset: 82361},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2547, col: 5, offset: 81887},
+												pos: position{line: 2565, col: 5, offset: 82361},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2547, col: 5, offset: 81887},
+														pos:        position{line: 2565, col: 5, offset: 82361},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2548, col: 5, offset: 81897},
+														pos: position{line: 2566, col: 5, offset: 82371},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2552, col: 6, offset: 81984},
+														pos: position{line: 2570, col: 6, offset: 82458},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2870, col: 10, offset: 90713},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2870, col: 10, offset: 90713},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45894,30 +46004,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2552, col: 14, offset: 81992},
+																pos: position{line: 2570, col: 14, offset: 82466},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2892, col: 8, offset: 91111},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2879, col: 12, offset: 90884},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2879, col: 13, offset: 90885},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2879, col: 13, offset: 90885},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2879, col: 20, offset: 90892},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2879, col: 29, offset: 90901},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -45926,9 +46036,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2889, col: 8, offset: 91061},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2889, col: 9, offset: 91062,
 																			},
 																		},
 																	},
@@ -45940,53 +46050,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82112},
+											pos: position{line: 2575, col: 5, offset: 82586},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82112},
+												pos: position{line: 2575, col: 5, offset: 82586},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82112},
+														pos:        position{line: 2575, col: 5, offset: 82586},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82122},
+														pos: position{line: 2576, col: 5, offset: 82596},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2562, col: 5, offset: 82211},
+														pos: position{line: 2580, col: 5, offset: 82685},
 														expr: &choiceExpr{
-															pos: position{line: 2562, col: 7, offset: 82213},
+															pos: position{line: 2580, col: 7, offset: 82687},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2760, col: 13, offset: 87808},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2879, col: 12, offset: 90884},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2879, col: 13, offset: 90885},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2879, col: 13, offset: 90885},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2879, col: 20, offset: 90892},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2879, col: 29, offset: 90901},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -45995,9 +46105,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -46007,30 +46117,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 20, offset: 82371},
+											pos: position{line: 2590, col: 20, offset: 82845},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2572, col: 20, offset: 82371},
+												pos:        position{line: 2590, col: 20, offset: 82845},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 21, offset: 82442},
+											pos: position{line: 2594, col: 21, offset: 82916},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 21, offset: 82442},
+												pos:        position{line: 2594, col: 21, offset: 82916},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 20, offset: 82512},
+											pos: position{line: 2598, col: 20, offset: 82986},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 20, offset: 82512},
+												pos:        position{line: 2598, col: 20, offset: 82986},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46042,73 +46152,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80682},
+						pos:  position{line: 2521, col: 7, offset: 81156},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81531},
+						pos: position{line: 2546, col: 14, offset: 82005},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81531},
+							pos:        position{line: 2546, col: 14, offset: 82005},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81597},
+						pos: position{line: 2550, col: 14, offset: 82071},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81597},
+							pos:        position{line: 2550, col: 14, offset: 82071},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81666},
+						pos: position{line: 2554, col: 15, offset: 82140},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81666},
+							pos:        position{line: 2554, col: 15, offset: 82140},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81731},
+						pos: position{line: 2558, col: 13, offset: 82205},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81731},
+							pos:        position{line: 2558, col: 13, offset: 82205},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81887},
+						pos: position{line: 2565, col: 5, offset: 82361},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81887},
+							pos: position{line: 2565, col: 5, offset: 82361},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81887},
+									pos:        position{line: 2565, col: 5, offset: 82361},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81897},
+									pos: position{line: 2566, col: 5, offset: 82371},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 6, offset: 81984},
+									pos: position{line: 2570, col: 6, offset: 82458},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2870, col: 10, offset: 90713},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2870, col: 10, offset: 90713},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46116,30 +46226,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2552, col: 14, offset: 81992},
+											pos: position{line: 2570, col: 14, offset: 82466},
 											expr: &choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2892, col: 8, offset: 91111},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2879, col: 12, offset: 90884},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2879, col: 13, offset: 90885},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2879, col: 13, offset: 90885},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2879, col: 20, offset: 90892},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2879, col: 29, offset: 90901},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46148,9 +46258,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2889, col: 8, offset: 91061},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2889, col: 9, offset: 91062,
 														},
 													},
 												},
@@ -46162,53 +46272,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82112},
+						pos: position{line: 2575, col: 5, offset: 82586},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82112},
+							pos: position{line: 2575, col: 5, offset: 82586},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82112},
+									pos:        position{line: 2575, col: 5, offset: 82586},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82122},
+									pos: position{line: 2576, col: 5, offset: 82596},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2562, col: 5, offset: 82211},
+									pos: position{line: 2580, col: 5, offset: 82685},
 									expr: &choiceExpr{
-										pos: position{line: 2562, col: 7, offset: 82213},
+										pos: position{line: 2580, col: 7, offset: 82687},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2760, col: 13, offset: 87808},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2879, col: 12, offset: 90884},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2879, col: 13, offset: 90885},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2879, col: 13, offset: 90885},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2879, col: 20, offset: 90892},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2879, col: 29, offset: 90901},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46217,9 +46327,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2889, col: 8, offset: 91061},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2889, col: 9, offset: 91062,
 												},
 											},
 										},
@@ -46229,40 +46339,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 21, offset: 82301},
+						pos: position{line: 2586, col: 21, offset: 82775},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 21, offset: 82301},
+							pos:        position{line: 2586, col: 21, offset: 82775},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 20, offset: 82371},
+						pos: position{line: 2590, col: 20, offset: 82845},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 20, offset: 82371},
+							pos:        position{line: 2590, col: 20, offset: 82845},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82442},
+						pos: position{line: 2594, col: 21, offset: 82916},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82442},
+							pos:        position{line: 2594, col: 21, offset: 82916},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82512},
+						pos: position{line: 2598, col: 20, offset: 82986},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82512},
+							pos:        position{line: 2598, col: 20, offset: 82986},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46273,24 +46383,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80872},
+			pos:  position{line: 2532, col: 1, offset: 81346},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80894},
+				pos: position{line: 2533, col: 5, offset: 81368},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80894},
+						pos: position{line: 2533, col: 5, offset: 81368},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80894},
+							pos: position{line: 2533, col: 5, offset: 81368},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80894},
+									pos:        position{line: 2533, col: 5, offset: 81368},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80900},
+									pos: position{line: 2533, col: 11, offset: 81374},
 									expr: &seqExpr{
 										pos: position{line: 2078, col: 5, offset: 67104},
 										exprs: []interface{}{
@@ -46323,21 +46433,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81053},
+						pos: position{line: 2536, col: 7, offset: 81527},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81053},
+							pos: position{line: 2536, col: 7, offset: 81527},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81053},
+									pos:        position{line: 2536, col: 7, offset: 81527},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81059},
+									pos: position{line: 2536, col: 13, offset: 81533},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81060},
+										pos:  position{line: 2536, col: 14, offset: 81534},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46345,19 +46455,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81210},
+						pos: position{line: 2539, col: 7, offset: 81684},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81210},
+							pos: position{line: 2539, col: 7, offset: 81684},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81210},
+									pos:        position{line: 2539, col: 7, offset: 81684},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81215},
+									pos: position{line: 2539, col: 12, offset: 81689},
 									expr: &seqExpr{
 										pos: position{line: 2078, col: 5, offset: 67104},
 										exprs: []interface{}{
@@ -46390,21 +46500,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81368},
+						pos: position{line: 2542, col: 7, offset: 81842},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81368},
+							pos: position{line: 2542, col: 7, offset: 81842},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81368},
+									pos:        position{line: 2542, col: 7, offset: 81842},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81373},
+									pos: position{line: 2542, col: 12, offset: 81847},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81374},
+										pos:  position{line: 2542, col: 13, offset: 81848},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46416,63 +46526,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2657, col: 1, offset: 84414},
+			pos:  position{line: 2675, col: 1, offset: 84888},
 			expr: &actionExpr{
-				pos: position{line: 2657, col: 26, offset: 84439},
+				pos: position{line: 2675, col: 26, offset: 84913},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2657, col: 26, offset: 84439},
+					pos: position{line: 2675, col: 26, offset: 84913},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2657, col: 26, offset: 84439},
+							pos:   position{line: 2675, col: 26, offset: 84913},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2657, col: 31, offset: 84444},
+								pos: position{line: 2675, col: 31, offset: 84918},
 								expr: &actionExpr{
-									pos: position{line: 2662, col: 5, offset: 84507},
+									pos: position{line: 2680, col: 5, offset: 84981},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2662, col: 5, offset: 84507},
+										pos: position{line: 2680, col: 5, offset: 84981},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2887, col: 11, offset: 91047},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2887, col: 13, offset: 91049,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2665, col: 5, offset: 84633},
+												pos:   position{line: 2683, col: 5, offset: 85107},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2665, col: 16, offset: 84644},
+													pos: position{line: 2683, col: 16, offset: 85118},
 													expr: &actionExpr{
-														pos: position{line: 2665, col: 17, offset: 84645},
+														pos: position{line: 2683, col: 17, offset: 85119},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2665, col: 17, offset: 84645},
+															pos: position{line: 2683, col: 17, offset: 85119},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2665, col: 17, offset: 84645},
+																	pos:   position{line: 2683, col: 17, offset: 85119},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2862, col: 12, offset: 90540},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2862, col: 13, offset: 90541},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2862, col: 13, offset: 90541},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2862, col: 13, offset: 90541},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2862, col: 18, offset: 90546},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2862, col: 18, offset: 90546},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46484,7 +46594,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2665, col: 27, offset: 84655},
+																	pos:        position{line: 2683, col: 27, offset: 85129},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46495,38 +46605,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2666, col: 5, offset: 84683},
+												pos:   position{line: 2684, col: 5, offset: 85157},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2666, col: 12, offset: 84690},
+													pos: position{line: 2684, col: 12, offset: 85164},
 													expr: &choiceExpr{
-														pos: position{line: 2667, col: 9, offset: 84700},
+														pos: position{line: 2685, col: 9, offset: 85174},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2667, col: 9, offset: 84700},
+																pos: position{line: 2685, col: 9, offset: 85174},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2667, col: 9, offset: 84700},
+																	pos:        position{line: 2685, col: 9, offset: 85174},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2668, col: 11, offset: 84747},
+																pos: position{line: 2686, col: 11, offset: 85221},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2668, col: 11, offset: 84747},
+																	pos:        position{line: 2686, col: 11, offset: 85221},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2669, col: 11, offset: 84795},
+																pos: position{line: 2687, col: 11, offset: 85269},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2669, col: 11, offset: 84795},
+																	pos:        position{line: 2687, col: 11, offset: 85269},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46537,38 +46647,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2671, col: 5, offset: 84845},
+												pos:   position{line: 2689, col: 5, offset: 85319},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2671, col: 12, offset: 84852},
+													pos: position{line: 2689, col: 12, offset: 85326},
 													expr: &choiceExpr{
-														pos: position{line: 2672, col: 9, offset: 84862},
+														pos: position{line: 2690, col: 9, offset: 85336},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2672, col: 9, offset: 84862},
+																pos: position{line: 2690, col: 9, offset: 85336},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2672, col: 9, offset: 84862},
+																	pos:        position{line: 2690, col: 9, offset: 85336},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2673, col: 11, offset: 84909},
+																pos: position{line: 2691, col: 11, offset: 85383},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2673, col: 11, offset: 84909},
+																	pos:        position{line: 2691, col: 11, offset: 85383},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2674, col: 11, offset: 84959},
+																pos: position{line: 2692, col: 11, offset: 85433},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2674, col: 11, offset: 84959},
+																	pos:        position{line: 2692, col: 11, offset: 85433},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46579,32 +46689,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85010},
+												pos:   position{line: 2694, col: 5, offset: 85484},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85017},
+													pos: position{line: 2694, col: 12, offset: 85491},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 13, offset: 85018},
+														pos: position{line: 2694, col: 13, offset: 85492},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2862, col: 12, offset: 90540},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2862, col: 13, offset: 90541},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2862, col: 13, offset: 90541},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2862, col: 13, offset: 90541},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2862, col: 18, offset: 90546},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2862, col: 18, offset: 90546},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46615,10 +46725,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 24, offset: 85029},
+																pos: position{line: 2694, col: 24, offset: 85503},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 24, offset: 85029},
+																	pos:        position{line: 2694, col: 24, offset: 85503},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46629,15 +46739,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85071},
+												pos:   position{line: 2695, col: 5, offset: 85545},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 11, offset: 85077},
+													pos: position{line: 2695, col: 11, offset: 85551},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 12, offset: 85078},
+														pos: position{line: 2695, col: 12, offset: 85552},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2677, col: 12, offset: 85078},
+															pos:        position{line: 2695, col: 12, offset: 85552},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46647,12 +46757,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85208},
+												pos:   position{line: 2697, col: 5, offset: 85682},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 11, offset: 85214},
+													pos: position{line: 2697, col: 11, offset: 85688},
 													expr: &litMatcher{
-														pos:        position{line: 2679, col: 12, offset: 85215},
+														pos:        position{line: 2697, col: 12, offset: 85689},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46660,7 +46770,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2680, col: 5, offset: 85225},
+												pos: position{line: 2698, col: 5, offset: 85699},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46669,9 +46779,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2889, col: 8, offset: 91061},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2889, col: 9, offset: 91062,
 							},
 						},
 					},
@@ -46680,23 +46790,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2707, col: 1, offset: 86234},
+			pos:  position{line: 2725, col: 1, offset: 86708},
 			expr: &actionExpr{
-				pos: position{line: 2708, col: 5, offset: 86257},
+				pos: position{line: 2726, col: 5, offset: 86731},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2708, col: 5, offset: 86257},
+					pos: position{line: 2726, col: 5, offset: 86731},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2708, col: 5, offset: 86257},
+							pos:   position{line: 2726, col: 5, offset: 86731},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2749, col: 18, offset: 87472},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2749, col: 19, offset: 87473},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2749, col: 19, offset: 87473},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46707,25 +46817,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2709, col: 5, offset: 86283},
+							pos: position{line: 2727, col: 5, offset: 86757},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2713, col: 5, offset: 86411},
+							pos:        position{line: 2731, col: 5, offset: 86885},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2714, col: 5, offset: 86421},
+							pos:   position{line: 2732, col: 5, offset: 86895},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2753, col: 19, offset: 87548},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2753, col: 19, offset: 87548},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2753, col: 19, offset: 87548},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46735,36 +46845,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2715, col: 5, offset: 86449},
+							pos:   position{line: 2733, col: 5, offset: 86923},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2715, col: 17, offset: 86461},
+								pos:  position{line: 2733, col: 17, offset: 86935},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2892, col: 8, offset: 91111},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2879, col: 12, offset: 90884},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2879, col: 13, offset: 90885},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2879, col: 13, offset: 90885},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2879, col: 20, offset: 90892},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2879, col: 29, offset: 90901},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46773,9 +46883,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2889, col: 8, offset: 91061},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2889, col: 9, offset: 91062,
 									},
 								},
 							},
@@ -46786,23 +46896,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2719, col: 1, offset: 86609},
+			pos:  position{line: 2737, col: 1, offset: 87083},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86633},
+				pos: position{line: 2738, col: 5, offset: 87107},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86633},
+					pos: position{line: 2738, col: 5, offset: 87107},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86633},
+							pos:   position{line: 2738, col: 5, offset: 87107},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2749, col: 18, offset: 87472},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2749, col: 19, offset: 87473},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2749, col: 19, offset: 87473},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46813,25 +46923,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86659},
+							pos: position{line: 2739, col: 5, offset: 87133},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86787},
+							pos:        position{line: 2743, col: 5, offset: 87261},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86796},
+							pos:   position{line: 2744, col: 5, offset: 87270},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2753, col: 19, offset: 87548},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2753, col: 19, offset: 87548},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2753, col: 19, offset: 87548},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46841,10 +46951,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86824},
+							pos:   position{line: 2745, col: 5, offset: 87298},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86836},
+								pos:  position{line: 2745, col: 17, offset: 87310},
 								name: "InlineAttributes",
 							},
 						},
@@ -46854,43 +46964,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2806, col: 1, offset: 88886},
+			pos:  position{line: 2824, col: 1, offset: 89360},
 			expr: &actionExpr{
-				pos: position{line: 2806, col: 17, offset: 88902},
+				pos: position{line: 2824, col: 17, offset: 89376},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2806, col: 17, offset: 88902},
+					pos:   position{line: 2824, col: 17, offset: 89376},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2823, col: 5, offset: 89356},
+						pos: position{line: 2841, col: 5, offset: 89830},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2823, col: 5, offset: 89356},
+							pos:   position{line: 2841, col: 5, offset: 89830},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2823, col: 14, offset: 89365},
+								pos: position{line: 2841, col: 14, offset: 89839},
 								expr: &choiceExpr{
-									pos: position{line: 2824, col: 9, offset: 89375},
+									pos: position{line: 2842, col: 9, offset: 89849},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2824, col: 9, offset: 89375},
+											pos: position{line: 2842, col: 9, offset: 89849},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2824, col: 9, offset: 89375},
+												pos: position{line: 2842, col: 9, offset: 89849},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2824, col: 9, offset: 89375},
+														pos: position{line: 2842, col: 9, offset: 89849},
 														expr: &litMatcher{
-															pos:        position{line: 2824, col: 10, offset: 89376},
+															pos:        position{line: 2842, col: 10, offset: 89850},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2825, col: 9, offset: 89404},
+														pos: position{line: 2843, col: 9, offset: 89878},
 														expr: &charClassMatcher{
-															pos:        position{line: 2825, col: 10, offset: 89405},
+															pos:        position{line: 2843, col: 10, offset: 89879},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -46901,27 +47011,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2828, col: 11, offset: 89617},
+											pos: position{line: 2846, col: 11, offset: 90091},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 11, offset: 89617},
+													pos:        position{line: 2846, col: 11, offset: 90091},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2828, col: 19, offset: 89625},
+													pos: position{line: 2846, col: 19, offset: 90099},
 													expr: &seqExpr{
-														pos: position{line: 2828, col: 21, offset: 89627},
+														pos: position{line: 2846, col: 21, offset: 90101},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2828, col: 21, offset: 89627},
+																pos: position{line: 2846, col: 21, offset: 90101},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2870, col: 10, offset: 90713},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2870, col: 10, offset: 90713},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -46930,11 +47040,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2828, col: 28, offset: 89634},
+																pos: position{line: 2846, col: 28, offset: 90108},
 																expr: &notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2889, col: 8, offset: 91061},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2889, col: 9, offset: 91062,
 																	},
 																},
 															},
@@ -47329,10 +47439,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2831, col: 11, offset: 89754},
+											pos: position{line: 2849, col: 11, offset: 90228},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2831, col: 11, offset: 89754},
+												pos:        position{line: 2849, col: 11, offset: 90228},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -69519,16 +69629,72 @@ func (p *parser) callonSubscriptText1() (interface{}, error) {
 	return p.cur.onSubscriptText1(stack["element"])
 }
 
-func (c *current) onSubscriptTextElement3() (interface{}, error) {
-	// anything except spaces, EOL or '~'
+func (c *current) onSubscriptTextElement7() (interface{}, error) {
 	return c.text, nil
 
 }
 
+func (p *parser) callonSubscriptTextElement7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement7()
+}
+
+func (c *current) onSubscriptTextElement12() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSubscriptTextElement12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement12()
+}
+
+func (c *current) onSubscriptTextElement14() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSubscriptTextElement14() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement14()
+}
+
+func (c *current) onSubscriptTextElement10(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSubscriptTextElement10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement10(stack["element"])
+}
+
+func (c *current) onSubscriptTextElement16() (interface{}, error) {
+	// if the substitution of special characters is disabled
+	return c.text, nil
+
+}
+
+func (p *parser) callonSubscriptTextElement16() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement16()
+}
+
+func (c *current) onSubscriptTextElement3(elements interface{}) (interface{}, error) {
+	// anything except spaces, EOL or '~'
+	return elements, nil
+
+}
+
 func (p *parser) callonSubscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement3()
+	return p.cur.onSubscriptTextElement3(stack["elements"])
 }
 
 func (c *current) onEscapedSubscriptText4() (interface{}, error) {
@@ -69566,16 +69732,72 @@ func (p *parser) callonSuperscriptText1() (interface{}, error) {
 	return p.cur.onSuperscriptText1(stack["element"])
 }
 
-func (c *current) onSuperscriptTextElement3() (interface{}, error) {
-	// anything except spaces, EOL or '^'
+func (c *current) onSuperscriptTextElement7() (interface{}, error) {
 	return c.text, nil
 
 }
 
+func (p *parser) callonSuperscriptTextElement7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement7()
+}
+
+func (c *current) onSuperscriptTextElement12() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement12()
+}
+
+func (c *current) onSuperscriptTextElement14() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSuperscriptTextElement14() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement14()
+}
+
+func (c *current) onSuperscriptTextElement10(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement10(stack["element"])
+}
+
+func (c *current) onSuperscriptTextElement16() (interface{}, error) {
+	// if the substitution of special characters is disabled
+	return c.text, nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement16() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement16()
+}
+
+func (c *current) onSuperscriptTextElement3(elements interface{}) (interface{}, error) {
+	// anything except spaces, EOL or '^'
+	return elements, nil
+
+}
+
 func (p *parser) callonSuperscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement3()
+	return p.cur.onSuperscriptTextElement3(stack["elements"])
 }
 
 func (c *current) onEscapedSuperscriptText4() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f63b127..c006ccc 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2234,7 +2234,16 @@ SubscriptTextDelimiter <- "~"
 
 SubscriptTextElement <- QuotedText / NonSubscriptText 
 
-NonSubscriptText <- [^\r\n ~]+ { // anything except spaces, EOL or '~'
+NonSubscriptText <- elements:(NonSubscriptTextElement)+ { // anything except spaces, EOL or '~'
+        return elements, nil
+    }
+
+NonSubscriptTextElement <-
+    [^\r\n ~<>&]+ {
+        return c.text, nil
+    }
+    / SpecialCharacter
+    / [<>&] { // if the substitution of special characters is disabled
         return c.text, nil
     }
 
@@ -2261,7 +2270,16 @@ SuperscriptTextDelimiter <- "^"
 
 SuperscriptTextElement <- QuotedText / NonSuperscriptText 
 
-NonSuperscriptText <- [^\r\n ^]+ { // anything except spaces, EOL or '^'
+NonSuperscriptText <- elements:(NonSuperscriptTextElement)+ { // anything except spaces, EOL or '^'
+        return elements, nil
+    }
+
+NonSuperscriptTextElement <-
+    [^\r\n ^<>&]+ {
+        return c.text, nil
+    }
+    / SpecialCharacter
+    / [<>&] { // if the substitution of special characters is disabled
         return c.text, nil
     }
 
-- 
2.43.0


From b1f677e2608b498700ae0fdaac0bb5b40f4bf4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 16/76] fix: escape special characters in attributes of
 rendered elements

---
 pkg/renderer/sgml/attribution.go              |  6 +-
 pkg/renderer/sgml/cross_reference.go          | 12 ++--
 pkg/renderer/sgml/delimited_block_source.go   |  2 +-
 pkg/renderer/sgml/document_details.go         | 12 ++--
 pkg/renderer/sgml/element_role.go             |  4 +-
 pkg/renderer/sgml/footnote_reference.go       |  8 +--
 .../html5/delimited_block_literal_tmpl.go     |  2 +-
 pkg/renderer/sgml/html_escape.go              | 63 ++++++++++++++++---
 pkg/renderer/sgml/icon.go                     | 30 +++++----
 pkg/renderer/sgml/image.go                    | 20 +++---
 pkg/renderer/sgml/link.go                     | 10 +--
 pkg/renderer/sgml/list.go                     |  4 +-
 pkg/renderer/sgml/render_plain_text.go        |  2 +-
 pkg/renderer/sgml/sgml.go                     |  8 +--
 14 files changed, 115 insertions(+), 68 deletions(-)

diff --git a/pkg/renderer/sgml/attribution.go b/pkg/renderer/sgml/attribution.go
index 2727b6f..a2b2efd 100644
--- a/pkg/renderer/sgml/attribution.go
+++ b/pkg/renderer/sgml/attribution.go
@@ -11,12 +11,12 @@ type Attribution struct { // TODO: unexport this type?
 func newAttribution(b types.WithAttributes) Attribution {
 	result := Attribution{}
 	if author, found := b.GetAttributes().GetAsString(types.AttrQuoteAuthor); found {
-		result.First = author
+		result.First = escapeText(author)
 		if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-			result.Second = title
+			result.Second = escapeText(title)
 		}
 	} else if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-		result.First = title
+		result.First = escapeText(title)
 	}
 	return result
 }
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index bfaa767..65ad002 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -21,7 +21,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
-		label = xrefLabel
+		label = escapeText(xrefLabel)
 	} else if target, found := ctx.elementReferences[xrefID]; found {
 		switch t := target.(type) {
 		case string:
@@ -50,13 +50,13 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
 	} else {
-		label = "[" + xrefID + "]"
+		label = "[" + escapeText(xrefID) + "]"
 	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  xrefID,
+		Href:  escapeAttribute(xrefID),
 		Label: label,
 	})
 }
@@ -67,19 +67,19 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 	var err error
 	switch l := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
-		label = l
+		label = escapeText(l)
 	case []interface{}:
 		if label, err = r.renderInlineElements(ctx, l); err != nil {
 			return "", err
 		}
 	default:
-		label = defaultXrefLabel(xref)
+		label = escapeText(defaultXrefLabel(xref))
 	}
 	return r.execute(r.externalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  getCrossReferenceLocation(xref),
+		Href:  escapeAttribute(getCrossReferenceLocation(xref)),
 		Label: label,
 	})
 }
diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 75150fa..2874274 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -50,7 +50,7 @@ func (r *sgmlRenderer) renderSourceBlock(ctx *context, b *types.DelimitedBlock)
 		Title:             title,
 		SyntaxHighlighter: highlighter,
 		Roles:             roles,
-		Language:          language,
+		Language:          escapeAttribute(language),
 		Nowrap:            nowrap,
 		Content:           strings.Trim(content, "\n"),
 	})
diff --git a/pkg/renderer/sgml/document_details.go b/pkg/renderer/sgml/document_details.go
index 7761e9e..2f18eda 100644
--- a/pkg/renderer/sgml/document_details.go
+++ b/pkg/renderer/sgml/document_details.go
@@ -36,10 +36,10 @@ func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
 		RevRemark string
 	}{
 		Authors:   authors,
-		RevLabel:  revLabel,
-		RevNumber: revNumber,
-		RevDate:   revDate,
-		RevRemark: revRemark,
+		RevLabel:  escapeText(revLabel),
+		RevNumber: escapeText(revNumber),
+		RevDate:   escapeText(revDate),
+		RevRemark: escapeText(revRemark),
 	}); err != nil {
 		return "", errors.Wrap(err, "error while rendering the document details")
 	}
@@ -78,8 +78,8 @@ func (r *sgmlRenderer) renderDocumentAuthorsDetails(ctx *context) (string, error
 				Email string
 			}{
 				Index: index,
-				Name:  author,
-				Email: email,
+				Name:  escapeText(author),
+				Email: escapeAttribute(email),
 			}); err != nil {
 				return "", errors.Wrap(err, "error while rendering the document authors")
 			}
diff --git a/pkg/renderer/sgml/element_role.go b/pkg/renderer/sgml/element_role.go
index 7cb696f..1214202 100644
--- a/pkg/renderer/sgml/element_role.go
+++ b/pkg/renderer/sgml/element_role.go
@@ -26,10 +26,10 @@ func (r *sgmlRenderer) renderElementRoles(ctx *context, attrs types.Attributes)
 func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (string, error) {
 	var result []string
 	if val, found := attrs.GetAsString(types.AttrFloat); found {
-		result = append(result, val)
+		result = append(result, escapeAttribute(val))
 	}
 	if val, found := attrs.GetAsString(types.AttrImageAlign); found {
-		result = append(result, "text-"+val)
+		result = append(result, "text-"+escapeAttribute(val))
 	}
 	if roles, ok := attrs[types.AttrRoles].(types.Roles); ok {
 		for _, e := range roles {
diff --git a/pkg/renderer/sgml/footnote_reference.go b/pkg/renderer/sgml/footnote_reference.go
index ef0796f..908d016 100644
--- a/pkg/renderer/sgml/footnote_reference.go
+++ b/pkg/renderer/sgml/footnote_reference.go
@@ -20,7 +20,7 @@ func (r *sgmlRenderer) renderFootnoteReference(note *types.FootnoteReference) (s
 			Ref string
 		}{
 			ID:  note.ID,
-			Ref: note.Ref,
+			Ref: escapeAttribute(note.Ref),
 		}); err != nil {
 			return "", errors.Wrap(err, "unable to render footnote")
 		}
@@ -35,7 +35,7 @@ func (r *sgmlRenderer) renderFootnoteReference(note *types.FootnoteReference) (s
 			Ref string
 		}{
 			ID:  note.ID,
-			Ref: note.Ref,
+			Ref: escapeAttribute(note.Ref),
 		}); err != nil {
 			return "", errors.Wrap(err, "unable to render footnote")
 		}
@@ -48,7 +48,7 @@ func (r *sgmlRenderer) renderFootnoteReference(note *types.FootnoteReference) (s
 		if err := tmpl.Execute(result, struct {
 			Ref string
 		}{
-			Ref: note.Ref,
+			Ref: escapeAttribute(note.Ref),
 		}); err != nil {
 			return "", errors.Wrap(err, "unable to render missing footnote")
 		}
@@ -96,7 +96,7 @@ func (r *sgmlRenderer) renderFootnoteElement(ctx *context, note *types.Footnote)
 	}{
 		Context: ctx,
 		ID:      note.ID,
-		Ref:     note.Ref,
+		Ref:     escapeAttribute(note.Ref),
 		Content: string(content),
 	})
 }
diff --git a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
index 58802e1..1bde785 100644
--- a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
@@ -2,7 +2,7 @@ package html5
 
 const (
 	literalBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
-		"class=\"literalblock\"{{ if .Roles }} {{ .Roles }}{{ end }}>\n" +
+		"class=\"literalblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"<pre>{{ .Content }}</pre>\n" +
diff --git a/pkg/renderer/sgml/html_escape.go b/pkg/renderer/sgml/html_escape.go
index 12b2f33..7af6d17 100644
--- a/pkg/renderer/sgml/html_escape.go
+++ b/pkg/renderer/sgml/html_escape.go
@@ -2,28 +2,71 @@ package sgml
 
 import (
 	"html"
+	"strconv"
 	"strings"
 )
 
 // escapeString is like html5.Escape func except but bypasses
 // a few replacements.  It is a bit more conservative.
 func escapeString(s string) string {
-	return htmlEscaper.Replace(s)
+	return quotesEscaper.Replace(escapeText(s))
 }
 
 func unescapeString(s string) string {
 	return html.UnescapeString(s)
 }
 
-var htmlEscaper = strings.NewReplacer(
-	`&lt;`, "&lt;", // keep as-is (we do not want `&amp;lt;`)
-	`&gt;`, "&gt;", // keep `&lgt;` as-is (we do not want `&amp;gt;`)
-	`&amp;`, "&amp;", // keep `&amps` as-is (we do not want `&amp;amp;`) // TODO: still needed?
-	`&#`, "&#", // assume this is for an character entity and this keep as-is
-	// standard escape combinations
-	`&`, "&amp;",
-	`<`, "&lt;",
-	`>`, "&gt;",
+// escapeAttribute escapes the characters which would not be valid in
+// the (double-quoted) value of an attribute, but keeps the character references
+func escapeAttribute(s string) string {
+	return strings.ReplaceAll(escapeText(s), `"`, "&#34;")
+}
+
+// escapeText escapes the characters which would not be valid in
+// the text of an element, but keeps the character references
+func escapeText(s string) string {
+	if !strings.ContainsAny(s, "<>&") {
+		return s
+	}
+	result := &strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '<':
+			result.WriteString("&lt;")
+		case c == '>':
+			result.WriteString("&gt;")
+		case c == '&' && !isCharacterReference(s[i:]):
+			result.WriteString("&amp;")
+		default:
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// isCharacterReference returns `true` if the given string starts with a
+// character reference: a predefined entity (such as `&lt;`) or a numeric value (such as `&#167;` or `&#xA7;`)
+func isCharacterReference(s string) bool {
+	end := strings.IndexByte(s, ';')
+	if end == -1 {
+		return false
+	}
+	switch name := s[1:end]; {
+	case strings.HasPrefix(name, "#x"):
+		_, err := strconv.ParseUint(name[2:], 16, 32)
+		return err == nil
+	case strings.HasPrefix(name, "#"):
+		_, err := strconv.ParseUint(name[1:], 10, 32)
+		return err == nil
+	default:
+		return name == "lt" || name == "gt" || name == "amp" || name == "quot"
+	}
+}
+
+// urlEscaper escapes the characters which are not valid in a URL, but not the `&` between its query parameters
+var urlEscaper = strings.NewReplacer(`"`, "%22", `<`, "%3C", `>`, "%3E")
+
+var quotesEscaper = strings.NewReplacer(
 	`'`, "&#39;", // "&#39;" is shorter than "&apos;" and apos was not in HTML until HTML5.
 	`"`, "&#34;", // "&#34;" is shorter than "&quot;".
 )
diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index fa5eab5..c7fb092 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -18,6 +18,10 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 	if err != nil {
 		return "", err
 	}
+	roles, err := r.renderElementRoles(ctx, icon.Attributes)
+	if err != nil {
+		return "", err
+	}
 	return r.execute(r.inlineIcon, struct {
 		Class  string
 		Role   string
@@ -29,9 +33,9 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		Class:  icon.Class,
 		Icon:   iconStr,
 		ID:     r.renderElementID(icon.Attributes),
-		Link:   icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window: icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Role:   icon.Attributes.GetAsStringWithDefault(types.AttrRoles, ""),
+		Link:   escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window: escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Role:   roles,
 	})
 }
 
@@ -99,16 +103,16 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		Admonition bool
 	}{
 		Class:      icon.Class,
-		Alt:        alt,
-		Title:      title,
-		Width:      icon.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:     icon.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
-		Size:       icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, ""),
-		Rotate:     icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, ""),
-		Flip:       icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, ""),
-		Link:       icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window:     icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Src:        renderIconPath(ctx, icon.Class),
+		Alt:        escapeAttribute(alt),
+		Title:      escapeAttribute(title),
+		Width:      escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:     escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
+		Size:       escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, "")),
+		Rotate:     escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, "")),
+		Flip:       escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, "")),
+		Link:       escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window:     escapeAttribute(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Src:        escapeAttribute(renderIconPath(ctx, icon.Class)),
 		Admonition: admonition,
 	}); err != nil {
 		return "", errors.Wrap(err, "unable to render icon")
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index 0e38828..8ea8ed3 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -63,15 +63,15 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 		Height      string
 	}{
 		ID:          r.renderElementID(img.Attributes),
-		Src:         src,
+		Src:         urlEscaper.Replace(src),
 		Title:       title,
 		ImageNumber: number,
 		Caption:     caption.String(),
 		Roles:       roles,
-		Href:        img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Alt:         alt,
-		Width:       img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:      img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:        escapeAttribute(img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Alt:         escapeAttribute(alt),
+		Width:       escapeAttribute(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:      escapeAttribute(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
@@ -99,13 +99,13 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 		Width  string
 		Height string
 	}{
-		Src:    src,
+		Src:    urlEscaper.Replace(src),
 		Title:  title,
 		Roles:  roles,
-		Href:   href,
-		Alt:    alt,
-		Width:  img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height: img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:   escapeAttribute(href),
+		Alt:    escapeAttribute(alt),
+		Width:  escapeAttribute(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height: escapeAttribute(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
diff --git a/pkg/renderer/sgml/link.go b/pkg/renderer/sgml/link.go
index c8003c7..fb2b6a2 100644
--- a/pkg/renderer/sgml/link.go
+++ b/pkg/renderer/sgml/link.go
@@ -10,7 +10,7 @@ import (
 func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, error) {
 	text := ""
 	class := ""
-	id := l.Attributes.GetAsStringWithDefault(types.AttrID, "")
+	id := escapeAttribute(l.Attributes.GetAsStringWithDefault(types.AttrID, ""))
 	roles, err := r.renderElementRoles(ctx, l.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render link")
@@ -19,7 +19,7 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 	if t, exists := l.Attributes[types.AttrInlineLinkText]; exists {
 		switch t := t.(type) {
 		case string:
-			text = htmlEscaper.Replace(t)
+			text = escapeString(t)
 		case []interface{}:
 			var err error
 			if text, err = r.renderInlineElements(ctx, t); err != nil {
@@ -28,7 +28,7 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 		}
 		class = roles // can be empty (and it's fine)
 	} else {
-		text = htmlEscaper.Replace(l.Location.ToDisplayString())
+		text = escapeString(l.Location.ToDisplayString())
 		if l.Location != nil && l.Location.Scheme != "mailto:" {
 			class = "bare"
 		}
@@ -47,10 +47,10 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 		NoOpener bool
 	}{
 		ID:       id,
-		URL:      htmlEscaper.Replace(l.Location.ToString()),
+		URL:      escapeAttribute(l.Location.ToString()),
 		Text:     text,
 		Class:    class,
-		Target:   target,
+		Target:   escapeAttribute(target),
 		NoOpener: noopener,
 	})
 }
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 3cf5c62..fa0a560 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -68,7 +68,7 @@ func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, e
 		Roles:     roles,
 		Style:     style,
 		ListStyle: r.numberingType(style),
-		Start:     l.Attributes.GetAsStringWithDefault(types.AttrStart, ""),
+		Start:     escapeAttribute(l.Attributes.GetAsStringWithDefault(types.AttrStart, "")),
 		Content:   content.String(),
 		Reversed:  l.Attributes.HasOption("reversed"),
 	})
@@ -76,7 +76,7 @@ func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, e
 
 func getNumberingStyle(l *types.List) (string, error) {
 	if s, found := l.Attributes.GetAsString(types.AttrStyle); found {
-		return s, nil
+		return escapeAttribute(s), nil
 	}
 	e, ok := l.Elements[0].(*types.OrderedListElement)
 	if !ok {
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index a60a01d..8f7d61d 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -155,7 +155,7 @@ func (r *plaintextRenderer) renderFootnoteReference(note *types.FootnoteReferenc
 		// valid case for a footnote with content, with our without an explicit reference
 		return `<sup class="footnote">[` + strconv.Itoa(note.ID) + `]</sup>`, nil
 	}
-	return `<sup class="footnoteref red">[` + note.Ref + `]</sup>`, nil
+	return `<sup class="footnoteref red">[` + escapeText(note.Ref) + `]</sup>`, nil
 }
 
 func (r *plaintextRenderer) renderInternalCrossReference(xref *types.InternalCrossReference) (string, error) {
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 04a604b..e7691e7 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -110,16 +110,16 @@ elements:
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article"),
+			Doctype:               escapeAttribute(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
-			Description:           ctx.attributes.GetAsStringWithDefault(types.AttrDescription, ""),
+			Description:           escapeAttribute(ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")),
 			Title:                 renderedTitle,
-			Authors:               r.renderAuthors(ctx, doc),
+			Authors:               escapeAttribute(r.renderAuthors(ctx, doc)),
 			Header:                renderedHeader,
 			Roles:                 roles,
 			ID:                    r.renderDocumentID(doc),
 			Content:               string(renderedContent),
-			RevNumber:             ctx.attributes.GetAsStringWithDefault("revnumber", ""),
+			RevNumber:             escapeText(ctx.attributes.GetAsStringWithDefault("revnumber", "")),
 			LastUpdated:           ctx.config.LastUpdated.Format(configuration.LastUpdatedFormat),
 			CSS:                   ctx.config.CSS,
 			IncludeHTMLBodyHeader: !ctx.attributes.Has(types.AttrNoHeader),
-- 
2.43.0


From ad04a74a6a1ef2c0a091dc2e43f572a808b71525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 17/76] fix: render valid markup for titles in attributes and
 interactive checkboxes in XHTML

---
 pkg/renderer/sgml/html5/templates.go       |  1 +
 pkg/renderer/sgml/html5/unordered_list.go  |  3 +-
 pkg/renderer/sgml/icon.go                  |  4 ++-
 pkg/renderer/sgml/image.go                 |  2 +-
 pkg/renderer/sgml/paragraph.go             | 39 ++++++++++++++++------
 pkg/renderer/sgml/render_plain_text.go     | 18 +++++-----
 pkg/renderer/sgml/sgml_renderer.go         | 11 ++++++
 pkg/renderer/sgml/table.go                 |  6 +++-
 pkg/renderer/sgml/templates.go             |  1 +
 pkg/renderer/sgml/xhtml5/unordered_list.go |  5 +++
 pkg/renderer/sgml/xhtml5/xhtml5.go         |  1 +
 11 files changed, 68 insertions(+), 23 deletions(-)
 create mode 100644 pkg/renderer/sgml/xhtml5/unordered_list.go

diff --git a/pkg/renderer/sgml/html5/templates.go b/pkg/renderer/sgml/html5/templates.go
index c30ba49..fa229d0 100644
--- a/pkg/renderer/sgml/html5/templates.go
+++ b/pkg/renderer/sgml/html5/templates.go
@@ -44,6 +44,7 @@ var templates = sgml.Templates{
 	LabeledListElement:           labeledListElementTmpl,
 	LabeledListHorizontal:        labeledListHorizontalTmpl,
 	LabeledListHorizontalElement: labeledListHorizontalElementTmpl,
+	InteractiveCheckbox:          interactiveCheckboxTmpl,
 	LineBreak:                    lineBreakTmpl,
 	Link:                         linkTmpl,
 	ListingBlock:                 listingBlockTmpl,
diff --git a/pkg/renderer/sgml/html5/unordered_list.go b/pkg/renderer/sgml/html5/unordered_list.go
index 73feabd..8e523a7 100644
--- a/pkg/renderer/sgml/html5/unordered_list.go
+++ b/pkg/renderer/sgml/html5/unordered_list.go
@@ -1,7 +1,8 @@
 package html5
 
 const (
-	unorderedListTmpl = `<div{{ if .ID }} id="{{ .ID }}"{{ end }}` +
+	interactiveCheckboxTmpl = `<input type="checkbox" data-item-complete="{{ if .Checked }}1" checked{{ else }}0"{{ end }}> `
+	unorderedListTmpl       = `<div{{ if .ID }} id="{{ .ID }}"{{ end }}` +
 		` class="ulist{{ if .Checklist }} checklist{{ end }}` +
 		`{{ if .Style }} {{ .Style }}{{ end }}` +
 		`{{ if .Roles }} {{ .Roles }}{{ end }}"` +
diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index c7fb092..f3bddcc 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -85,7 +85,9 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		// Inline icons use the alt attribute, and may optionally carry a title.
 		// The alt is the icon class name unless overridden.  They don't use the caption at all.
 		alt = icon.Attributes.GetAsStringWithDefault(types.AttrImageAlt, alt)
-		title = icon.Attributes.GetAsStringWithDefault(types.AttrTitle, "")
+		if title, err = r.renderTitleAttribute(icon.Attributes); err != nil {
+			return "", errors.Wrap(err, "unable to render icon title")
+		}
 	}
 	s := &strings.Builder{}
 	if err := tmpl.Execute(s, struct {
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index 8ea8ed3..adb2ceb 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -86,7 +86,7 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image")
 	}
-	title, err := r.renderElementTitle(ctx, img.Attributes)
+	title, err := r.renderTitleAttribute(img.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image roles")
 	}
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index a5def21..a69aa6a 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -87,6 +87,10 @@ func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph,
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render embedded paragraph content")
 	}
+	checkStyle, err := r.renderCheckStyle(p.Attributes[types.AttrCheckStyle])
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render embedded paragraph check style")
+	}
 	return r.execute(r.embeddedParagraph, struct {
 		Context    *context
 		CheckStyle string
@@ -95,7 +99,7 @@ func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph,
 	}{
 		Context:    ctx,
 		Class:      class,
-		CheckStyle: renderCheckStyle(p.Attributes[types.AttrCheckStyle]),
+		CheckStyle: checkStyle,
 		Content:    trimSpaces(content),
 	})
 }
@@ -114,19 +118,21 @@ func trimSpaces(content string) string {
 	return contentBuf.String()
 }
 
-func renderCheckStyle(style interface{}) string {
+func (r *sgmlRenderer) renderCheckStyle(style interface{}) (string, error) {
 	// default checkboxes
 	switch style {
 	case types.Checked:
-		return "&#10003; "
-	case types.CheckedInteractive:
-		return `<input type="checkbox" data-item-complete="1" checked> `
+		return "&#10003; ", nil
 	case types.Unchecked:
-		return "&#10063; "
-	case types.UncheckedInteractive:
-		return `<input type="checkbox" data-item-complete="0"> `
+		return "&#10063; ", nil
+	case types.CheckedInteractive, types.UncheckedInteractive:
+		return r.execute(r.interactiveCheckbox, struct {
+			Checked bool
+		}{
+			Checked: style == types.CheckedInteractive,
+		})
 	default:
-		return ""
+		return "", nil
 	}
 }
 
@@ -138,7 +144,7 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 	}
 	switch title := title.(type) {
 	case string:
-		return title, nil
+		return escapeText(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	case nil: // blank title
@@ -148,6 +154,19 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 	}
 }
 
+// renderTitleAttribute renders the title as the value of an attribute, ie, as plain text
+func (r *sgmlRenderer) renderTitleAttribute(attrs types.Attributes) (string, error) {
+	switch title := attrs[types.AttrTitle].(type) {
+	case string:
+		return escapeAttribute(title), nil
+	case []interface{}:
+		result, err := RenderPlainText(title, WithoutEscape())
+		return escapeAttribute(result), err
+	default:
+		return "", nil
+	}
+}
+
 func (r *sgmlRenderer) renderParagraphElements(ctx *context, p *types.Paragraph) (string, error) {
 	hardbreaks := p.Attributes.HasOption(types.AttrHardBreaks) || ctx.attributes.HasOption(types.AttrHardBreaks)
 	buf := &strings.Builder{}
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 8f7d61d..15124e2 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -61,9 +61,9 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.QuotedText:
 		return r.render(e.Elements)
 	case *types.Icon:
-		return e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, "")), nil
 	case *types.InlineImage:
-		return e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, "")), nil
 	case *types.InlineLink:
 		return r.renderInlineLink(e)
 	case *types.BlankLine, types.ThematicBreak:
@@ -89,7 +89,7 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.ConcealedIndexTerm:
 		return "", nil
 	case *types.InlineButton:
-		return e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, "")), nil
 	case *types.InlineMenu:
 		return r.escape(strings.Join(e.Path, " > ")), nil
 	case *types.UserMacro:
@@ -144,9 +144,9 @@ func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error
 	case []interface{}:
 		return r.render(alt)
 	case string:
-		return alt, nil
+		return r.escape(alt), nil
 	default:
-		return l.Location.ToDisplayString(), nil
+		return r.escape(l.Location.ToDisplayString()), nil
 	}
 }
 
@@ -163,9 +163,9 @@ func (r *plaintextRenderer) renderInternalCrossReference(xref *types.InternalCro
 	case []interface{}:
 		return r.render(label)
 	case string:
-		return label, nil
+		return r.escape(label), nil
 	default:
-		return fmt.Sprintf("[%v]", xref.ID), nil
+		return r.escape(fmt.Sprintf("[%v]", xref.ID)), nil
 	}
 }
 
@@ -174,8 +174,8 @@ func (r *plaintextRenderer) renderExternalCrossReference(xref *types.ExternalCro
 	case []interface{}:
 		return r.render(label)
 	case string:
-		return label, nil
+		return r.escape(label), nil
 	default:
-		return defaultXrefLabel(xref), nil
+		return r.escape(defaultXrefLabel(xref)), nil
 	}
 }
diff --git a/pkg/renderer/sgml/sgml_renderer.go b/pkg/renderer/sgml/sgml_renderer.go
index a6ae59f..ea8814c 100644
--- a/pkg/renderer/sgml/sgml_renderer.go
+++ b/pkg/renderer/sgml/sgml_renderer.go
@@ -112,6 +112,9 @@ type sgmlRenderer struct {
 	labeledListHorizontalElementOnce sync.Once
 	labeledListHorizontalElementTmpl *texttemplate.Template
 
+	interactiveCheckboxOnce sync.Once
+	interactiveCheckboxTmpl *texttemplate.Template
+
 	lineBreakOnce sync.Once
 	lineBreakTmpl *texttemplate.Template
 
@@ -534,6 +537,14 @@ func (r *sgmlRenderer) labeledListHorizontalElement() (*texttemplate.Template, e
 	return r.labeledListHorizontalElementTmpl, err
 }
 
+func (r *sgmlRenderer) interactiveCheckbox() (*texttemplate.Template, error) {
+	var err error
+	r.interactiveCheckboxOnce.Do(func() {
+		r.interactiveCheckboxTmpl, err = r.newTemplate("InteractiveCheckbox", r.templates.InteractiveCheckbox, err)
+	})
+	return r.interactiveCheckboxTmpl, err
+}
+
 func (r *sgmlRenderer) lineBreak() (*texttemplate.Template, error) {
 	var err error
 	r.lineBreakOnce.Do(func() {
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 75819f4..4173358 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -292,6 +292,10 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 		if err != nil {
 			return "", errors.Wrap(err, "unable to render table cell paragraph content")
 		}
+		checkStyle, err := r.renderCheckStyle(e.Attributes[types.AttrCheckStyle])
+		if err != nil {
+			return "", errors.Wrap(err, "unable to render table cell paragraph content")
+		}
 		result, err := r.execute(r.embeddedParagraph, struct {
 			Context    *context
 			ID         string // TODO: not used in template?
@@ -304,7 +308,7 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 			ID:         r.renderElementID(e.Attributes),
 			Title:      title,
 			Class:      "tableblock",
-			CheckStyle: renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
+			CheckStyle: checkStyle,
 			Content:    string(content),
 		})
 		if err != nil {
diff --git a/pkg/renderer/sgml/templates.go b/pkg/renderer/sgml/templates.go
index 7a57551..5874cbc 100644
--- a/pkg/renderer/sgml/templates.go
+++ b/pkg/renderer/sgml/templates.go
@@ -36,6 +36,7 @@ type Templates struct {
 	LabeledListElement           string
 	LabeledListHorizontal        string
 	LabeledListHorizontalElement string
+	InteractiveCheckbox          string
 	LineBreak                    string
 	Link                         string
 	ListingBlock                 string
diff --git a/pkg/renderer/sgml/xhtml5/unordered_list.go b/pkg/renderer/sgml/xhtml5/unordered_list.go
new file mode 100644
index 0000000..215950a
--- /dev/null
+++ b/pkg/renderer/sgml/xhtml5/unordered_list.go
@@ -0,0 +1,5 @@
+package xhtml5
+
+const (
+	interactiveCheckboxTmpl = `<input type="checkbox" data-item-complete="{{ if .Checked }}1" checked="checked"{{ else }}0"{{ end }}/> `
+)
diff --git a/pkg/renderer/sgml/xhtml5/xhtml5.go b/pkg/renderer/sgml/xhtml5/xhtml5.go
index a379e0e..c271ad3 100644
--- a/pkg/renderer/sgml/xhtml5/xhtml5.go
+++ b/pkg/renderer/sgml/xhtml5/xhtml5.go
@@ -15,6 +15,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	// XHTML5 overrides of HTML5.
 	templates.Article = articleTmpl
 	templates.BlockImage = blockImageTmpl
+	templates.InteractiveCheckbox = interactiveCheckboxTmpl
 	templates.LineBreak = lineBreakTmpl
 	templates.DocumentAuthorDetails = documentAuthorDetailsTmpl
 	templates.DocumentDetails = documentDetailsTmpl
-- 
2.43.0


From 4237afcc7f8901208eda0fc6f00779ca0f558616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 18/76] fix: escape special characters in captions and table
 attributes

---
 pkg/renderer/sgml/delimited_block_example.go |  2 +-
 pkg/renderer/sgml/image.go                   |  2 +-
 pkg/renderer/sgml/table.go                   | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index d0f5be7..2c02c94 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -38,7 +38,7 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 		return "", errors.Wrap(err, "unable to render example block title")
 	}
 	caption := &strings.Builder{}
-	caption.WriteString(c)
+	caption.WriteString(escapeText(c))
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index adb2ceb..313ac88 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -39,7 +39,7 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 			number = ctx.GetAndIncrementImageCounter()
 			c = strings.ReplaceAll(c, "{counter:figure-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeText(c))
 	}
 	roles, err := r.renderImageRoles(ctx, img.Attributes)
 	if err != nil {
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 4173358..26e5f70 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -13,10 +13,10 @@ import (
 func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error) {
 	number := 0
 	fit := "stretch"
-	frame := t.Attributes.GetAsStringWithDefault(types.AttrFrame, "all")
-	grid := t.Attributes.GetAsStringWithDefault(types.AttrGrid, "all")
-	float := t.Attributes.GetAsStringWithDefault(types.AttrFloat, "")
-	stripes := t.Attributes.GetAsStringWithDefault(types.AttrStripes, "")
+	frame := escapeAttribute(t.Attributes.GetAsStringWithDefault(types.AttrFrame, "all"))
+	grid := escapeAttribute(t.Attributes.GetAsStringWithDefault(types.AttrGrid, "all"))
+	float := escapeAttribute(t.Attributes.GetAsStringWithDefault(types.AttrFloat, ""))
+	stripes := escapeAttribute(t.Attributes.GetAsStringWithDefault(types.AttrStripes, ""))
 
 	width, _ := strconv.Atoi(
 		strings.TrimSuffix(t.Attributes.GetAsStringWithDefault(types.AttrWidth, ""), "%"))
@@ -57,7 +57,7 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 			number = ctx.GetAndIncrementTableCounter()
 			c = strings.ReplaceAll(c, "{counter:table-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeText(c))
 	}
 	columns, err := t.Columns()
 	if err != nil {
-- 
2.43.0


From 9b06c4e76bdd224a2f0040ee48e6844531645abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 19/76] fix: apply verbatim substitutions on literal and source
 paragraphs

---
 pkg/parser/document_substitutions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 53a38ad..0b81a25 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -144,9 +144,9 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 			return verbatimSubstitutions()
 		}
 	case *types.Paragraph:
-		// if listing paragraph:
+		// if listing, source or literal paragraph:
 		switch b.GetAttributes().GetAsStringWithDefault(types.AttrStyle, "") {
-		case types.Listing:
+		case types.Listing, types.Source, types.Literal, types.LiteralParagraph:
 			return verbatimSubstitutions()
 		case types.Passthrough:
 			return noneSubstitutions()
-- 
2.43.0


From 75a23eb124d758d025323fe2b993dbee4d2049df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 20/76] fix: do not unescape apostrophes when replacements are
 disabled

---
 pkg/parser/parser.go  | 9620 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    3 +
 2 files changed, 4843 insertions(+), 4780 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a1fa0cc..e5af0f3 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2862, col: 12, offset: 90540},
+																pos: position{line: 2865, col: 12, offset: 90611},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2862, col: 13, offset: 90541},
+																	pos: position{line: 2865, col: 13, offset: 90612},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2862, col: 13, offset: 90541},
+																			pos: position{line: 2865, col: 13, offset: 90612},
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 13, offset: 90541},
+																				pos:        position{line: 2865, col: 13, offset: 90612},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 18, offset: 90546},
+																			pos: position{line: 2865, col: 18, offset: 90617},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 18, offset: 90546},
+																				pos:        position{line: 2865, col: 18, offset: 90617},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2862, col: 12, offset: 90540},
+																pos: position{line: 2865, col: 12, offset: 90611},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2862, col: 13, offset: 90541},
+																	pos: position{line: 2865, col: 13, offset: 90612},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2862, col: 13, offset: 90541},
+																			pos: position{line: 2865, col: 13, offset: 90612},
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 13, offset: 90541},
+																				pos:        position{line: 2865, col: 13, offset: 90612},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 18, offset: 90546},
+																			pos: position{line: 2865, col: 18, offset: 90617},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 18, offset: 90546},
+																				pos:        position{line: 2865, col: 18, offset: 90617},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2760, col: 13, offset: 87808},
+														pos:        position{line: 2763, col: 13, offset: 87879},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2874, col: 11, offset: 90774},
+													pos: position{line: 2877, col: 11, offset: 90845},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2874, col: 11, offset: 90774},
+														pos: position{line: 2877, col: 11, offset: 90845},
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 11, offset: 90774},
+															pos:        position{line: 2877, col: 11, offset: 90845},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2820, col: 14, offset: 89306},
+													pos: position{line: 2823, col: 14, offset: 89377},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2820, col: 14, offset: 89306},
+														pos: position{line: 2823, col: 14, offset: 89377},
 														expr: &charClassMatcher{
-															pos:        position{line: 2820, col: 14, offset: 89306},
+															pos:        position{line: 2823, col: 14, offset: 89377},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2824, col: 17, offset: 89376},
+												pos: position{line: 2827, col: 17, offset: 89447},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2824, col: 17, offset: 89376},
+													pos:   position{line: 2827, col: 17, offset: 89447},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 5, offset: 89830},
+														pos: position{line: 2844, col: 5, offset: 89901},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2841, col: 5, offset: 89830},
+															pos:   position{line: 2844, col: 5, offset: 89901},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2841, col: 14, offset: 89839},
+																pos: position{line: 2844, col: 14, offset: 89910},
 																expr: &choiceExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2842, col: 9, offset: 89849},
+																			pos: position{line: 2845, col: 9, offset: 89920},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 9, offset: 89849},
+																						pos: position{line: 2845, col: 9, offset: 89920},
 																						expr: &litMatcher{
-																							pos:        position{line: 2842, col: 10, offset: 89850},
+																							pos:        position{line: 2845, col: 10, offset: 89921},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2843, col: 9, offset: 89878},
+																						pos: position{line: 2846, col: 9, offset: 89949},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2843, col: 10, offset: 89879},
+																							pos:        position{line: 2846, col: 10, offset: 89950},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2846, col: 11, offset: 90091},
+																			pos: position{line: 2849, col: 11, offset: 90162},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2846, col: 11, offset: 90091},
+																					pos:        position{line: 2849, col: 11, offset: 90162},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2846, col: 19, offset: 90099},
+																					pos: position{line: 2849, col: 19, offset: 90170},
 																					expr: &seqExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2846, col: 21, offset: 90101},
+																								pos: position{line: 2849, col: 21, offset: 90172},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2846, col: 28, offset: 90108},
+																								pos: position{line: 2849, col: 28, offset: 90179},
 																								expr: &notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2849, col: 11, offset: 90228},
+																			pos: position{line: 2852, col: 11, offset: 90299},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2849, col: 11, offset: 90228},
+																				pos:        position{line: 2852, col: 11, offset: 90299},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 12, offset: 90540},
+																				pos: position{line: 2865, col: 12, offset: 90611},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2862, col: 13, offset: 90541},
+																					pos: position{line: 2865, col: 13, offset: 90612},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2862, col: 13, offset: 90541},
+																							pos: position{line: 2865, col: 13, offset: 90612},
 																							expr: &litMatcher{
-																								pos:        position{line: 2862, col: 13, offset: 90541},
+																								pos:        position{line: 2865, col: 13, offset: 90612},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2862, col: 18, offset: 90546},
+																							pos: position{line: 2865, col: 18, offset: 90617},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 18, offset: 90546},
+																								pos:        position{line: 2865, col: 18, offset: 90617},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 12, offset: 90540},
+																				pos: position{line: 2865, col: 12, offset: 90611},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2862, col: 13, offset: 90541},
+																					pos: position{line: 2865, col: 13, offset: 90612},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2862, col: 13, offset: 90541},
+																							pos: position{line: 2865, col: 13, offset: 90612},
 																							expr: &litMatcher{
-																								pos:        position{line: 2862, col: 13, offset: 90541},
+																								pos:        position{line: 2865, col: 13, offset: 90612},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2862, col: 18, offset: 90546},
+																							pos: position{line: 2865, col: 18, offset: 90617},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 18, offset: 90546},
+																								pos:        position{line: 2865, col: 18, offset: 90617},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 12, offset: 90540},
+																		pos: position{line: 2865, col: 12, offset: 90611},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2862, col: 13, offset: 90541},
+																			pos: position{line: 2865, col: 13, offset: 90612},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2862, col: 13, offset: 90541},
+																					pos: position{line: 2865, col: 13, offset: 90612},
 																					expr: &litMatcher{
-																						pos:        position{line: 2862, col: 13, offset: 90541},
+																						pos:        position{line: 2865, col: 13, offset: 90612},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2862, col: 18, offset: 90546},
+																					pos: position{line: 2865, col: 18, offset: 90617},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 18, offset: 90546},
+																						pos:        position{line: 2865, col: 18, offset: 90617},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 12, offset: 90540},
+																									pos: position{line: 2865, col: 12, offset: 90611},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2862, col: 13, offset: 90541},
+																										pos: position{line: 2865, col: 13, offset: 90612},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2862, col: 13, offset: 90541},
+																												pos: position{line: 2865, col: 13, offset: 90612},
 																												expr: &litMatcher{
-																													pos:        position{line: 2862, col: 13, offset: 90541},
+																													pos:        position{line: 2865, col: 13, offset: 90612},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2862, col: 18, offset: 90546},
+																												pos: position{line: 2865, col: 18, offset: 90617},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 18, offset: 90546},
+																													pos:        position{line: 2865, col: 18, offset: 90617},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 12, offset: 90540},
+																									pos: position{line: 2865, col: 12, offset: 90611},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2862, col: 13, offset: 90541},
+																										pos: position{line: 2865, col: 13, offset: 90612},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2862, col: 13, offset: 90541},
+																												pos: position{line: 2865, col: 13, offset: 90612},
 																												expr: &litMatcher{
-																													pos:        position{line: 2862, col: 13, offset: 90541},
+																													pos:        position{line: 2865, col: 13, offset: 90612},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2862, col: 18, offset: 90546},
+																												pos: position{line: 2865, col: 18, offset: 90617},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 18, offset: 90546},
+																													pos:        position{line: 2865, col: 18, offset: 90617},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 12, offset: 90540},
+																							pos: position{line: 2865, col: 12, offset: 90611},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2862, col: 13, offset: 90541},
+																								pos: position{line: 2865, col: 13, offset: 90612},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2862, col: 13, offset: 90541},
+																										pos: position{line: 2865, col: 13, offset: 90612},
 																										expr: &litMatcher{
-																											pos:        position{line: 2862, col: 13, offset: 90541},
+																											pos:        position{line: 2865, col: 13, offset: 90612},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2862, col: 18, offset: 90546},
+																										pos: position{line: 2865, col: 18, offset: 90617},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 18, offset: 90546},
+																											pos:        position{line: 2865, col: 18, offset: 90617},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 12, offset: 90540},
+														pos: position{line: 2865, col: 12, offset: 90611},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2862, col: 13, offset: 90541},
+															pos: position{line: 2865, col: 13, offset: 90612},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2862, col: 13, offset: 90541},
+																	pos: position{line: 2865, col: 13, offset: 90612},
 																	expr: &litMatcher{
-																		pos:        position{line: 2862, col: 13, offset: 90541},
+																		pos:        position{line: 2865, col: 13, offset: 90612},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2862, col: 18, offset: 90546},
+																	pos: position{line: 2865, col: 18, offset: 90617},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 18, offset: 90546},
+																		pos:        position{line: 2865, col: 18, offset: 90617},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 12, offset: 90540},
+														pos: position{line: 2865, col: 12, offset: 90611},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2862, col: 13, offset: 90541},
+															pos: position{line: 2865, col: 13, offset: 90612},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2862, col: 13, offset: 90541},
+																	pos: position{line: 2865, col: 13, offset: 90612},
 																	expr: &litMatcher{
-																		pos:        position{line: 2862, col: 13, offset: 90541},
+																		pos:        position{line: 2865, col: 13, offset: 90612},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2862, col: 18, offset: 90546},
+																	pos: position{line: 2865, col: 18, offset: 90617},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 18, offset: 90546},
+																		pos:        position{line: 2865, col: 18, offset: 90617},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 12, offset: 90540},
+												pos: position{line: 2865, col: 12, offset: 90611},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90541},
+													pos: position{line: 2865, col: 13, offset: 90612},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2862, col: 13, offset: 90541},
+															pos: position{line: 2865, col: 13, offset: 90612},
 															expr: &litMatcher{
-																pos:        position{line: 2862, col: 13, offset: 90541},
+																pos:        position{line: 2865, col: 13, offset: 90612},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2862, col: 18, offset: 90546},
+															pos: position{line: 2865, col: 18, offset: 90617},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 18, offset: 90546},
+																pos:        position{line: 2865, col: 18, offset: 90617},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2764, col: 14, offset: 87882},
+																		pos: position{line: 2767, col: 14, offset: 87953},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2764, col: 14, offset: 87882},
+																			pos: position{line: 2767, col: 14, offset: 87953},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2764, col: 14, offset: 87882},
+																				pos:        position{line: 2767, col: 14, offset: 87953},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2764, col: 14, offset: 87882},
+																				pos: position{line: 2767, col: 14, offset: 87953},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2764, col: 14, offset: 87882},
+																					pos: position{line: 2767, col: 14, offset: 87953},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2764, col: 14, offset: 87882},
+																						pos:        position{line: 2767, col: 14, offset: 87953},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2764, col: 14, offset: 87882},
+																							pos: position{line: 2767, col: 14, offset: 87953},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2764, col: 14, offset: 87882},
+																								pos: position{line: 2767, col: 14, offset: 87953},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2764, col: 14, offset: 87882},
+																									pos:        position{line: 2767, col: 14, offset: 87953},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2764, col: 14, offset: 87882},
+																									pos: position{line: 2767, col: 14, offset: 87953},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2764, col: 14, offset: 87882},
+																										pos: position{line: 2767, col: 14, offset: 87953},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2764, col: 14, offset: 87882},
+																											pos:        position{line: 2767, col: 14, offset: 87953},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2764, col: 14, offset: 87882},
+																pos: position{line: 2767, col: 14, offset: 87953},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2764, col: 14, offset: 87882},
+																	pos: position{line: 2767, col: 14, offset: 87953},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2764, col: 14, offset: 87882},
+																		pos:        position{line: 2767, col: 14, offset: 87953},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2764, col: 14, offset: 87882},
+																pos: position{line: 2767, col: 14, offset: 87953},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2764, col: 14, offset: 87882},
+																	pos: position{line: 2767, col: 14, offset: 87953},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2764, col: 14, offset: 87882},
+																		pos:        position{line: 2767, col: 14, offset: 87953},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2887, col: 11, offset: 91047},
+														pos: position{line: 2890, col: 11, offset: 91118},
 														expr: &anyMatcher{
-															line: 2887, col: 13, offset: 91049,
+															line: 2890, col: 13, offset: 91120,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2892, col: 8, offset: 91111},
+																				pos: position{line: 2895, col: 8, offset: 91182},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2879, col: 12, offset: 90884},
+																						pos: position{line: 2882, col: 12, offset: 90955},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2879, col: 13, offset: 90885},
+																							pos: position{line: 2882, col: 13, offset: 90956},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 13, offset: 90885},
+																									pos:        position{line: 2882, col: 13, offset: 90956},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 20, offset: 90892},
+																									pos:        position{line: 2882, col: 20, offset: 90963},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 29, offset: 90901},
+																									pos:        position{line: 2882, col: 29, offset: 90972},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30149},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30149},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30684},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2820, col: 14, offset: 89306},
+																			pos: position{line: 2823, col: 14, offset: 89377},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2820, col: 14, offset: 89306},
+																				pos: position{line: 2823, col: 14, offset: 89377},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 14, offset: 89306},
+																					pos:        position{line: 2823, col: 14, offset: 89377},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2887, col: 11, offset: 91047},
+																									pos: position{line: 2890, col: 11, offset: 91118},
 																									expr: &anyMatcher{
-																										line: 2887, col: 13, offset: 91049,
+																										line: 2890, col: 13, offset: 91120,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30684},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2820, col: 14, offset: 89306},
+																						pos: position{line: 2823, col: 14, offset: 89377},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2820, col: 14, offset: 89306},
+																							pos: position{line: 2823, col: 14, offset: 89377},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2820, col: 14, offset: 89306},
+																								pos:        position{line: 2823, col: 14, offset: 89377},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -7168,12 +7168,12 @@ var g = &grammar{
 																					pos:   position{line: 1784, col: 5, offset: 57605},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2820, col: 14, offset: 89306},
+																						pos: position{line: 2823, col: 14, offset: 89377},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2820, col: 14, offset: 89306},
+																							pos: position{line: 2823, col: 14, offset: 89377},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2820, col: 14, offset: 89306},
+																								pos:        position{line: 2823, col: 14, offset: 89377},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7187,28 +7187,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2715, col: 18, offset: 86303},
+											pos: position{line: 2718, col: 18, offset: 86374},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2715, col: 18, offset: 86303},
+												pos: position{line: 2718, col: 18, offset: 86374},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2716, col: 9, offset: 86313},
+														pos: position{line: 2719, col: 9, offset: 86384},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2716, col: 9, offset: 86313},
+																pos:        position{line: 2719, col: 9, offset: 86384},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2717, col: 11, offset: 86349},
+																pos:        position{line: 2720, col: 11, offset: 86420},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2717, col: 19, offset: 86357},
+																pos:        position{line: 2720, col: 19, offset: 86428},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2717, col: 29, offset: 86367},
+																pos:        position{line: 2720, col: 29, offset: 86438},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2717, col: 37, offset: 86375},
+																pos:        position{line: 2720, col: 37, offset: 86446},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2717, col: 47, offset: 86385},
+																pos:        position{line: 2720, col: 47, offset: 86456},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2717, col: 55, offset: 86393},
+																pos:        position{line: 2720, col: 55, offset: 86464},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2718, col: 11, offset: 86451},
+														pos: position{line: 2721, col: 11, offset: 86522},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 5, offset: 83239},
+											pos: position{line: 2609, col: 5, offset: 83310},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2606, col: 5, offset: 83239},
+												pos: position{line: 2609, col: 5, offset: 83310},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2612, col: 19, offset: 83396},
+														pos:        position{line: 2615, col: 19, offset: 83467},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2612, col: 26, offset: 83403},
+														pos: position{line: 2615, col: 26, offset: 83474},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9101,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2607, col: 5, offset: 83263},
+														pos:   position{line: 2610, col: 5, offset: 83334},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2607, col: 11, offset: 83269},
+															pos: position{line: 2610, col: 11, offset: 83340},
 															expr: &choiceExpr{
-																pos: position{line: 2607, col: 12, offset: 83270},
+																pos: position{line: 2610, col: 12, offset: 83341},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2887, col: 11, offset: 91047},
+																					pos: position{line: 2890, col: 11, offset: 91118},
 																					expr: &anyMatcher{
-																						line: 2887, col: 13, offset: 91049,
+																						line: 2890, col: 13, offset: 91120,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2619, col: 5, offset: 83515},
+																		pos: position{line: 2622, col: 5, offset: 83586},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2619, col: 5, offset: 83515},
+																			pos: position{line: 2622, col: 5, offset: 83586},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2619, col: 5, offset: 83515},
+																					pos: position{line: 2622, col: 5, offset: 83586},
 																					expr: &choiceExpr{
-																						pos: position{line: 2616, col: 22, offset: 83476},
+																						pos: position{line: 2619, col: 22, offset: 83547},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2612, col: 19, offset: 83396},
+																								pos: position{line: 2615, col: 19, offset: 83467},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2612, col: 19, offset: 83396},
+																										pos:        position{line: 2615, col: 19, offset: 83467},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2612, col: 26, offset: 83403},
+																										pos: position{line: 2615, col: 26, offset: 83474},
 																										expr: &actionExpr{
-																											pos: position{line: 2870, col: 10, offset: 90713},
+																											pos: position{line: 2873, col: 10, offset: 90784},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2870, col: 10, offset: 90713},
+																												pos:        position{line: 2873, col: 10, offset: 90784},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2892, col: 8, offset: 91111},
+																										pos: position{line: 2895, col: 8, offset: 91182},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2879, col: 12, offset: 90884},
+																												pos: position{line: 2882, col: 12, offset: 90955},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2879, col: 13, offset: 90885},
+																													pos: position{line: 2882, col: 13, offset: 90956},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2879, col: 13, offset: 90885},
+																															pos:        position{line: 2882, col: 13, offset: 90956},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2879, col: 20, offset: 90892},
+																															pos:        position{line: 2882, col: 20, offset: 90963},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2879, col: 29, offset: 90901},
+																															pos:        position{line: 2882, col: 29, offset: 90972},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2889, col: 8, offset: 91061},
+																												pos: position{line: 2892, col: 8, offset: 91132},
 																												expr: &anyMatcher{
-																													line: 2889, col: 9, offset: 91062,
+																													line: 2892, col: 9, offset: 91133,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2620, col: 5, offset: 83538},
+																					pos:   position{line: 2623, col: 5, offset: 83609},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2621, col: 9, offset: 83556},
+																						pos: position{line: 2624, col: 9, offset: 83627},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2621, col: 10, offset: 83557},
+																								pos: position{line: 2624, col: 10, offset: 83628},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2621, col: 10, offset: 83557},
+																									pos:   position{line: 2624, col: 10, offset: 83628},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2621, col: 17, offset: 83564},
+																										pos: position{line: 2624, col: 17, offset: 83635},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2629, col: 21, offset: 83760},
+																												pos: position{line: 2632, col: 21, offset: 83831},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2629, col: 21, offset: 83760},
+																													pos: position{line: 2632, col: 21, offset: 83831},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2629, col: 21, offset: 83760},
+																															pos:   position{line: 2632, col: 21, offset: 83831},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2629, col: 27, offset: 83766},
+																																pos: position{line: 2632, col: 27, offset: 83837},
 																																expr: &actionExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83841},
+																																	pos: position{line: 2637, col: 5, offset: 83912},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83841},
+																																		pos: position{line: 2637, col: 5, offset: 83912},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2634, col: 5, offset: 83841},
+																																				pos:        position{line: 2637, col: 5, offset: 83912},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2634, col: 9, offset: 83845},
+																																				pos: position{line: 2637, col: 9, offset: 83916},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2870, col: 10, offset: 90713},
+																																					pos: position{line: 2873, col: 10, offset: 90784},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2870, col: 10, offset: 90713},
+																																						pos:        position{line: 2873, col: 10, offset: 90784},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2634, col: 16, offset: 83852},
+																																				pos:   position{line: 2637, col: 16, offset: 83923},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2640, col: 5, offset: 84052},
+																																					pos: position{line: 2643, col: 5, offset: 84123},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2640, col: 5, offset: 84052},
+																																						pos:   position{line: 2643, col: 5, offset: 84123},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2640, col: 14, offset: 84061},
+																																							pos: position{line: 2643, col: 14, offset: 84132},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2640, col: 14, offset: 84061},
+																																								pos: position{line: 2643, col: 14, offset: 84132},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2640, col: 14, offset: 84061},
+																																									pos:        position{line: 2643, col: 14, offset: 84132},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2892, col: 8, offset: 91111},
+																															pos: position{line: 2895, col: 8, offset: 91182},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2879, col: 12, offset: 90884},
+																																	pos: position{line: 2882, col: 12, offset: 90955},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2879, col: 13, offset: 90885},
+																																		pos: position{line: 2882, col: 13, offset: 90956},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2879, col: 13, offset: 90885},
+																																				pos:        position{line: 2882, col: 13, offset: 90956},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2879, col: 20, offset: 90892},
+																																				pos:        position{line: 2882, col: 20, offset: 90963},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2879, col: 29, offset: 90901},
+																																				pos:        position{line: 2882, col: 29, offset: 90972},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2889, col: 8, offset: 91061},
+																																	pos: position{line: 2892, col: 8, offset: 91132},
 																																	expr: &anyMatcher{
-																																		line: 2889, col: 9, offset: 91062,
+																																		line: 2892, col: 9, offset: 91133,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2646, col: 24, offset: 84197},
+																												pos: position{line: 2649, col: 24, offset: 84268},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2646, col: 24, offset: 84197},
+																													pos:   position{line: 2649, col: 24, offset: 84268},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2646, col: 30, offset: 84203},
+																														pos: position{line: 2649, col: 30, offset: 84274},
 																														expr: &actionExpr{
-																															pos: position{line: 2651, col: 5, offset: 84279},
+																															pos: position{line: 2654, col: 5, offset: 84350},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2651, col: 5, offset: 84279},
+																																pos: position{line: 2654, col: 5, offset: 84350},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2651, col: 5, offset: 84279},
+																																		pos: position{line: 2654, col: 5, offset: 84350},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2616, col: 22, offset: 83476},
+																																			pos: position{line: 2619, col: 22, offset: 83547},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2612, col: 19, offset: 83396},
+																																					pos: position{line: 2615, col: 19, offset: 83467},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2612, col: 19, offset: 83396},
+																																							pos:        position{line: 2615, col: 19, offset: 83467},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2612, col: 26, offset: 83403},
+																																							pos: position{line: 2615, col: 26, offset: 83474},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2870, col: 10, offset: 90713},
+																																								pos: position{line: 2873, col: 10, offset: 90784},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2870, col: 10, offset: 90713},
+																																									pos:        position{line: 2873, col: 10, offset: 90784},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2892, col: 8, offset: 91111},
+																																							pos: position{line: 2895, col: 8, offset: 91182},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2879, col: 12, offset: 90884},
+																																									pos: position{line: 2882, col: 12, offset: 90955},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2879, col: 13, offset: 90885},
+																																										pos: position{line: 2882, col: 13, offset: 90956},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2879, col: 13, offset: 90885},
+																																												pos:        position{line: 2882, col: 13, offset: 90956},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2879, col: 20, offset: 90892},
+																																												pos:        position{line: 2882, col: 20, offset: 90963},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2879, col: 29, offset: 90901},
+																																												pos:        position{line: 2882, col: 29, offset: 90972},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2889, col: 8, offset: 91061},
+																																									pos: position{line: 2892, col: 8, offset: 91132},
 																																									expr: &anyMatcher{
-																																										line: 2889, col: 9, offset: 91062,
+																																										line: 2892, col: 9, offset: 91133,
 																																									},
 																																								},
 																																							},
@@ -9473,16 +9473,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2889, col: 8, offset: 91061},
+																																					pos: position{line: 2892, col: 8, offset: 91132},
 																																					expr: &anyMatcher{
-																																						line: 2889, col: 9, offset: 91062,
+																																						line: 2892, col: 9, offset: 91133,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2652, col: 5, offset: 84302},
+																																		pos: position{line: 2655, col: 5, offset: 84373},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			run: (*parser).callonDocumentFragment1209,
@@ -9490,18 +9490,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2887, col: 11, offset: 91047},
+																																						pos: position{line: 2890, col: 11, offset: 91118},
 																																						expr: &anyMatcher{
-																																							line: 2887, col: 13, offset: 91049,
+																																							line: 2890, col: 13, offset: 91120,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2870, col: 10, offset: 90713},
+																																							pos: position{line: 2873, col: 10, offset: 90784},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2870, col: 10, offset: 90713},
+																																								pos:        position{line: 2873, col: 10, offset: 90784},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2892, col: 8, offset: 91111},
+																																						pos: position{line: 2895, col: 8, offset: 91182},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2879, col: 12, offset: 90884},
+																																								pos: position{line: 2882, col: 12, offset: 90955},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2879, col: 13, offset: 90885},
+																																									pos: position{line: 2882, col: 13, offset: 90956},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2879, col: 13, offset: 90885},
+																																											pos:        position{line: 2882, col: 13, offset: 90956},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2879, col: 20, offset: 90892},
+																																											pos:        position{line: 2882, col: 20, offset: 90963},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2879, col: 29, offset: 90901},
+																																											pos:        position{line: 2882, col: 29, offset: 90972},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2889, col: 8, offset: 91061},
+																																								pos: position{line: 2892, col: 8, offset: 91132},
 																																								expr: &anyMatcher{
-																																									line: 2889, col: 9, offset: 91062,
+																																									line: 2892, col: 9, offset: 91133,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2653, col: 5, offset: 84317},
+																																		pos:   position{line: 2656, col: 5, offset: 84388},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2653, col: 12, offset: 84324},
+																																			pos: position{line: 2656, col: 12, offset: 84395},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2670, col: 20, offset: 84788},
+																																				pos: position{line: 2673, col: 20, offset: 84859},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2670, col: 20, offset: 84788},
+																																					pos: position{line: 2673, col: 20, offset: 84859},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2670, col: 20, offset: 84788},
+																																						pos:        position{line: 2673, col: 20, offset: 84859},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2653, col: 31, offset: 84343},
+																																		pos:        position{line: 2656, col: 31, offset: 84414},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2653, col: 35, offset: 84347},
+																																		pos: position{line: 2656, col: 35, offset: 84418},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2870, col: 10, offset: 90713},
+																																			pos: position{line: 2873, col: 10, offset: 90784},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2870, col: 10, offset: 90713},
+																																				pos:        position{line: 2873, col: 10, offset: 90784},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2653, col: 42, offset: 84354},
+																																		pos: position{line: 2656, col: 42, offset: 84425},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2879, col: 12, offset: 90884},
+																																			pos: position{line: 2882, col: 12, offset: 90955},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2879, col: 13, offset: 90885},
+																																				pos: position{line: 2882, col: 13, offset: 90956},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2879, col: 13, offset: 90885},
+																																						pos:        position{line: 2882, col: 13, offset: 90956},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2879, col: 20, offset: 90892},
+																																						pos:        position{line: 2882, col: 20, offset: 90963},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2879, col: 29, offset: 90901},
+																																						pos:        position{line: 2882, col: 29, offset: 90972},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2653, col: 51, offset: 84363},
+																																		pos:   position{line: 2656, col: 51, offset: 84434},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2659, col: 5, offset: 84522},
+																																			pos: position{line: 2662, col: 5, offset: 84593},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2660, col: 9, offset: 84532},
+																																				pos: position{line: 2663, col: 9, offset: 84603},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2660, col: 9, offset: 84532},
+																																					pos: position{line: 2663, col: 9, offset: 84603},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2660, col: 9, offset: 84532},
+																																							pos: position{line: 2663, col: 9, offset: 84603},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2616, col: 22, offset: 83476},
+																																								pos: position{line: 2619, col: 22, offset: 83547},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2612, col: 19, offset: 83396},
+																																										pos: position{line: 2615, col: 19, offset: 83467},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2612, col: 19, offset: 83396},
+																																												pos:        position{line: 2615, col: 19, offset: 83467},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2612, col: 26, offset: 83403},
+																																												pos: position{line: 2615, col: 26, offset: 83474},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2870, col: 10, offset: 90713},
+																																													pos: position{line: 2873, col: 10, offset: 90784},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2870, col: 10, offset: 90713},
+																																														pos:        position{line: 2873, col: 10, offset: 90784},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2892, col: 8, offset: 91111},
+																																												pos: position{line: 2895, col: 8, offset: 91182},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2879, col: 12, offset: 90884},
+																																														pos: position{line: 2882, col: 12, offset: 90955},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2879, col: 13, offset: 90885},
+																																															pos: position{line: 2882, col: 13, offset: 90956},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2889, col: 8, offset: 91061},
+																																														pos: position{line: 2892, col: 8, offset: 91132},
 																																														expr: &anyMatcher{
-																																															line: 2889, col: 9, offset: 91062,
+																																															line: 2892, col: 9, offset: 91133,
 																																														},
 																																													},
 																																												},
@@ -9702,16 +9702,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2889, col: 8, offset: 91061},
+																																										pos: position{line: 2892, col: 8, offset: 91132},
 																																										expr: &anyMatcher{
-																																											line: 2889, col: 9, offset: 91062,
+																																											line: 2892, col: 9, offset: 91133,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2661, col: 9, offset: 84559},
+																																							pos: position{line: 2664, col: 9, offset: 84630},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								run: (*parser).callonDocumentFragment1261,
@@ -9719,18 +9719,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2887, col: 11, offset: 91047},
+																																											pos: position{line: 2890, col: 11, offset: 91118},
 																																											expr: &anyMatcher{
-																																												line: 2887, col: 13, offset: 91049,
+																																												line: 2890, col: 13, offset: 91120,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2870, col: 10, offset: 90713},
+																																												pos: position{line: 2873, col: 10, offset: 90784},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2870, col: 10, offset: 90713},
+																																													pos:        position{line: 2873, col: 10, offset: 90784},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2892, col: 8, offset: 91111},
+																																											pos: position{line: 2895, col: 8, offset: 91182},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2879, col: 12, offset: 90884},
+																																													pos: position{line: 2882, col: 12, offset: 90955},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2879, col: 13, offset: 90885},
+																																														pos: position{line: 2882, col: 13, offset: 90956},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2889, col: 8, offset: 91061},
+																																													pos: position{line: 2892, col: 8, offset: 91132},
 																																													expr: &anyMatcher{
-																																														line: 2889, col: 9, offset: 91062,
+																																														line: 2892, col: 9, offset: 91133,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2662, col: 9, offset: 84578},
+																																							pos: position{line: 2665, col: 9, offset: 84649},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2662, col: 11, offset: 84580},
+																																								pos: position{line: 2665, col: 11, offset: 84651},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2662, col: 11, offset: 84580},
+																																										pos:   position{line: 2665, col: 11, offset: 84651},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2662, col: 18, offset: 84587},
+																																											pos: position{line: 2665, col: 18, offset: 84658},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2670, col: 20, offset: 84788},
+																																												pos: position{line: 2673, col: 20, offset: 84859},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2670, col: 20, offset: 84788},
+																																													pos: position{line: 2673, col: 20, offset: 84859},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2670, col: 20, offset: 84788},
+																																														pos:        position{line: 2673, col: 20, offset: 84859},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2662, col: 37, offset: 84606},
+																																										pos:        position{line: 2665, col: 37, offset: 84677},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2663, col: 9, offset: 84619},
+																																							pos:   position{line: 2666, col: 9, offset: 84690},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2663, col: 18, offset: 84628},
+																																								pos: position{line: 2666, col: 18, offset: 84699},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2663, col: 18, offset: 84628},
+																																									pos: position{line: 2666, col: 18, offset: 84699},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2663, col: 18, offset: 84628},
+																																										pos:        position{line: 2666, col: 18, offset: 84699},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2665, col: 12, offset: 84690},
+																																							pos: position{line: 2668, col: 12, offset: 84761},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91111},
+																																								pos: position{line: 2895, col: 8, offset: 91182},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2879, col: 12, offset: 90884},
+																																										pos: position{line: 2882, col: 12, offset: 90955},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2879, col: 13, offset: 90885},
+																																											pos: position{line: 2882, col: 13, offset: 90956},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2879, col: 13, offset: 90885},
+																																													pos:        position{line: 2882, col: 13, offset: 90956},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2879, col: 20, offset: 90892},
+																																													pos:        position{line: 2882, col: 20, offset: 90963},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2879, col: 29, offset: 90901},
+																																													pos:        position{line: 2882, col: 29, offset: 90972},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2889, col: 8, offset: 91061},
+																																										pos: position{line: 2892, col: 8, offset: 91132},
 																																										expr: &anyMatcher{
-																																											line: 2889, col: 9, offset: 91062,
+																																											line: 2892, col: 9, offset: 91133,
 																																										},
 																																									},
 																																								},
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2887, col: 11, offset: 91047},
+																											pos: position{line: 2890, col: 11, offset: 91118},
 																											expr: &anyMatcher{
-																												line: 2887, col: 13, offset: 91049,
+																												line: 2890, col: 13, offset: 91120,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2616, col: 22, offset: 83476},
+														pos: position{line: 2619, col: 22, offset: 83547},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2612, col: 19, offset: 83396},
+																pos: position{line: 2615, col: 19, offset: 83467},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2612, col: 19, offset: 83396},
+																		pos:        position{line: 2615, col: 19, offset: 83467},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2612, col: 26, offset: 83403},
+																		pos: position{line: 2615, col: 26, offset: 83474},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -10068,12 +10068,12 @@ var g = &grammar{
 														pos:   position{line: 2480, col: 49, offset: 79725},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2816, col: 13, offset: 89239},
+															pos: position{line: 2819, col: 13, offset: 89310},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2816, col: 13, offset: 89239},
+																pos: position{line: 2819, col: 13, offset: 89310},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2816, col: 13, offset: 89239},
+																	pos:        position{line: 2819, col: 13, offset: 89310},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -10151,10 +10151,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -10229,10 +10229,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38197},
 																												expr: &actionExpr{
-																													pos: position{line: 2870, col: 10, offset: 90713},
+																													pos: position{line: 2873, col: 10, offset: 90784},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2870, col: 10, offset: 90713},
+																														pos:        position{line: 2873, col: 10, offset: 90784},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2892, col: 8, offset: 91111},
+																												pos: position{line: 2895, col: 8, offset: 91182},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2879, col: 12, offset: 90884},
+																														pos: position{line: 2882, col: 12, offset: 90955},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2879, col: 13, offset: 90885},
+																															pos: position{line: 2882, col: 13, offset: 90956},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 13, offset: 90885},
+																																	pos:        position{line: 2882, col: 13, offset: 90956},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 20, offset: 90892},
+																																	pos:        position{line: 2882, col: 20, offset: 90963},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2879, col: 29, offset: 90901},
+																																	pos:        position{line: 2882, col: 29, offset: 90972},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2889, col: 8, offset: 91061},
+																														pos: position{line: 2892, col: 8, offset: 91132},
 																														expr: &anyMatcher{
-																															line: 2889, col: 9, offset: 91062,
+																															line: 2892, col: 9, offset: 91133,
 																														},
 																													},
 																												},
@@ -10300,10 +10300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -10515,12 +10515,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2874, col: 11, offset: 90774},
+												pos: position{line: 2877, col: 11, offset: 90845},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2874, col: 11, offset: 90774},
+													pos: position{line: 2877, col: 11, offset: 90845},
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 11, offset: 90774},
+														pos:        position{line: 2877, col: 11, offset: 90845},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -10618,25 +10618,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2879, col: 12, offset: 90884},
+												pos: position{line: 2882, col: 12, offset: 90955},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2879, col: 13, offset: 90885},
+													pos: position{line: 2882, col: 13, offset: 90956},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2879, col: 13, offset: 90885},
+															pos:        position{line: 2882, col: 13, offset: 90956},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2879, col: 20, offset: 90892},
+															pos:        position{line: 2882, col: 20, offset: 90963},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2879, col: 29, offset: 90901},
+															pos:        position{line: 2882, col: 29, offset: 90972},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10647,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2870, col: 10, offset: 90713},
+													pos: position{line: 2873, col: 10, offset: 90784},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 10, offset: 90713},
+														pos:        position{line: 2873, col: 10, offset: 90784},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10720,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2870, col: 10, offset: 90713},
+											pos: position{line: 2873, col: 10, offset: 90784},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 10, offset: 90713},
+												pos:        position{line: 2873, col: 10, offset: 90784},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2892, col: 8, offset: 91111},
+										pos: position{line: 2895, col: 8, offset: 91182},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2879, col: 12, offset: 90884},
+												pos: position{line: 2882, col: 12, offset: 90955},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2879, col: 13, offset: 90885},
+													pos: position{line: 2882, col: 13, offset: 90956},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2879, col: 13, offset: 90885},
+															pos:        position{line: 2882, col: 13, offset: 90956},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2879, col: 20, offset: 90892},
+															pos:        position{line: 2882, col: 20, offset: 90963},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2879, col: 29, offset: 90901},
+															pos:        position{line: 2882, col: 29, offset: 90972},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2889, col: 8, offset: 91061},
+												pos: position{line: 2892, col: 8, offset: 91132},
 												expr: &anyMatcher{
-													line: 2889, col: 9, offset: 91062,
+													line: 2892, col: 9, offset: 91133,
 												},
 											},
 										},
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 10, offset: 90713},
+										pos: position{line: 2873, col: 10, offset: 90784},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2870, col: 10, offset: 90713},
+											pos:        position{line: 2873, col: 10, offset: 90784},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11665,10 +11665,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2870, col: 10, offset: 90713},
+													pos: position{line: 2873, col: 10, offset: 90784},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 10, offset: 90713},
+														pos:        position{line: 2873, col: 10, offset: 90784},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2892, col: 8, offset: 91111},
+												pos: position{line: 2895, col: 8, offset: 91182},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2879, col: 12, offset: 90884},
+														pos: position{line: 2882, col: 12, offset: 90955},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2879, col: 13, offset: 90885},
+															pos: position{line: 2882, col: 13, offset: 90956},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2879, col: 13, offset: 90885},
+																	pos:        position{line: 2882, col: 13, offset: 90956},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 20, offset: 90892},
+																	pos:        position{line: 2882, col: 20, offset: 90963},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 29, offset: 90901},
+																	pos:        position{line: 2882, col: 29, offset: 90972},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11707,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2889, col: 8, offset: 91061},
+														pos: position{line: 2892, col: 8, offset: 91132},
 														expr: &anyMatcher{
-															line: 2889, col: 9, offset: 91062,
+															line: 2892, col: 9, offset: 91133,
 														},
 													},
 												},
@@ -11723,18 +11723,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2887, col: 11, offset: 91047},
+																pos: position{line: 2890, col: 11, offset: 91118},
 																expr: &anyMatcher{
-																	line: 2887, col: 13, offset: 91049,
+																	line: 2890, col: 13, offset: 91120,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -11827,12 +11827,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2764, col: 14, offset: 87882},
+																				pos: position{line: 2767, col: 14, offset: 87953},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2764, col: 14, offset: 87882},
+																					pos: position{line: 2767, col: 14, offset: 87953},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2764, col: 14, offset: 87882},
+																						pos:        position{line: 2767, col: 14, offset: 87953},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2787, col: 5, offset: 88367},
+																				pos: position{line: 2790, col: 5, offset: 88438},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2788, col: 9, offset: 88377},
+																					pos: position{line: 2791, col: 9, offset: 88448},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2788, col: 10, offset: 88378},
+																							pos:        position{line: 2791, col: 10, offset: 88449},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2790, col: 13, offset: 88475},
+																							pos: position{line: 2793, col: 13, offset: 88546},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2790, col: 13, offset: 88475},
+																									pos: position{line: 2793, col: 13, offset: 88546},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2793, col: 13, offset: 88575},
+																									pos:        position{line: 2796, col: 13, offset: 88646},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2793, col: 19, offset: 88581},
+																							pos:        position{line: 2796, col: 19, offset: 88652},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2796, col: 13, offset: 88619},
+																							pos: position{line: 2799, col: 13, offset: 88690},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2796, col: 13, offset: 88619},
+																									pos: position{line: 2799, col: 13, offset: 88690},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2799, col: 14, offset: 88712},
+																									pos:        position{line: 2802, col: 14, offset: 88783},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2801, col: 12, offset: 88756},
+																							pos: position{line: 2804, col: 12, offset: 88827},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2801, col: 12, offset: 88756},
+																									pos:        position{line: 2804, col: 12, offset: 88827},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2801, col: 16, offset: 88760},
+																									pos: position{line: 2804, col: 16, offset: 88831},
 																									expr: &litMatcher{
-																										pos:        position{line: 2801, col: 17, offset: 88761},
+																										pos:        position{line: 2804, col: 17, offset: 88832},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12031,10 +12031,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2809, col: 12, offset: 89021},
+																				pos: position{line: 2812, col: 12, offset: 89092},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2809, col: 12, offset: 89021},
+																					pos:        position{line: 2812, col: 12, offset: 89092},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12052,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2870, col: 10, offset: 90713},
+													pos: position{line: 2873, col: 10, offset: 90784},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 10, offset: 90713},
+														pos:        position{line: 2873, col: 10, offset: 90784},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12064,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2892, col: 8, offset: 91111},
+												pos: position{line: 2895, col: 8, offset: 91182},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2879, col: 12, offset: 90884},
+														pos: position{line: 2882, col: 12, offset: 90955},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2879, col: 13, offset: 90885},
+															pos: position{line: 2882, col: 13, offset: 90956},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2879, col: 13, offset: 90885},
+																	pos:        position{line: 2882, col: 13, offset: 90956},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 20, offset: 90892},
+																	pos:        position{line: 2882, col: 20, offset: 90963},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 29, offset: 90901},
+																	pos:        position{line: 2882, col: 29, offset: 90972},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12094,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2889, col: 8, offset: 91061},
+														pos: position{line: 2892, col: 8, offset: 91132},
 														expr: &anyMatcher{
-															line: 2889, col: 9, offset: 91062,
+															line: 2892, col: 9, offset: 91133,
 														},
 													},
 												},
@@ -12110,18 +12110,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2887, col: 11, offset: 91047},
+																pos: position{line: 2890, col: 11, offset: 91118},
 																expr: &anyMatcher{
-																	line: 2887, col: 13, offset: 91049,
+																	line: 2890, col: 13, offset: 91120,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12130,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12160,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -12191,10 +12191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2870, col: 10, offset: 90713},
+													pos: position{line: 2873, col: 10, offset: 90784},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 10, offset: 90713},
+														pos:        position{line: 2873, col: 10, offset: 90784},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12203,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2892, col: 8, offset: 91111},
+												pos: position{line: 2895, col: 8, offset: 91182},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2879, col: 12, offset: 90884},
+														pos: position{line: 2882, col: 12, offset: 90955},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2879, col: 13, offset: 90885},
+															pos: position{line: 2882, col: 13, offset: 90956},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2879, col: 13, offset: 90885},
+																	pos:        position{line: 2882, col: 13, offset: 90956},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 20, offset: 90892},
+																	pos:        position{line: 2882, col: 20, offset: 90963},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 29, offset: 90901},
+																	pos:        position{line: 2882, col: 29, offset: 90972},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12233,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2889, col: 8, offset: 91061},
+														pos: position{line: 2892, col: 8, offset: 91132},
 														expr: &anyMatcher{
-															line: 2889, col: 9, offset: 91062,
+															line: 2892, col: 9, offset: 91133,
 														},
 													},
 												},
@@ -12249,18 +12249,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2887, col: 11, offset: 91047},
+																pos: position{line: 2890, col: 11, offset: 91118},
 																expr: &anyMatcher{
-																	line: 2887, col: 13, offset: 91049,
+																	line: 2890, col: 13, offset: 91120,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -12549,10 +12549,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2870, col: 10, offset: 90713},
+											pos: position{line: 2873, col: 10, offset: 90784},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 10, offset: 90713},
+												pos:        position{line: 2873, col: 10, offset: 90784},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13084,10 +13084,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13148,10 +13148,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13191,10 +13191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2870, col: 10, offset: 90713},
+													pos: position{line: 2873, col: 10, offset: 90784},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 10, offset: 90713},
+														pos:        position{line: 2873, col: 10, offset: 90784},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13217,10 +13217,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13275,10 +13275,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2870, col: 10, offset: 90713},
+												pos: position{line: 2873, col: 10, offset: 90784},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2870, col: 10, offset: 90713},
+													pos:        position{line: 2873, col: 10, offset: 90784},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13309,10 +13309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13342,10 +13342,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2870, col: 10, offset: 90713},
+											pos: position{line: 2873, col: 10, offset: 90784},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 10, offset: 90713},
+												pos:        position{line: 2873, col: 10, offset: 90784},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13400,10 +13400,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2870, col: 10, offset: 90713},
+												pos: position{line: 2873, col: 10, offset: 90784},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2870, col: 10, offset: 90713},
+													pos:        position{line: 2873, col: 10, offset: 90784},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13482,12 +13482,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2764, col: 14, offset: 87882},
+									pos: position{line: 2767, col: 14, offset: 87953},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2764, col: 14, offset: 87882},
+										pos: position{line: 2767, col: 14, offset: 87953},
 										expr: &charClassMatcher{
-											pos:        position{line: 2764, col: 14, offset: 87882},
+											pos:        position{line: 2767, col: 14, offset: 87953},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13496,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2870, col: 10, offset: 90713},
+									pos: position{line: 2873, col: 10, offset: 90784},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2870, col: 10, offset: 90713},
+										pos:        position{line: 2873, col: 10, offset: 90784},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13956,10 +13956,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2870, col: 10, offset: 90713},
+												pos: position{line: 2873, col: 10, offset: 90784},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2870, col: 10, offset: 90713},
+													pos:        position{line: 2873, col: 10, offset: 90784},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,12 +13996,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2764, col: 14, offset: 87882},
+									pos: position{line: 2767, col: 14, offset: 87953},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2764, col: 14, offset: 87882},
+										pos: position{line: 2767, col: 14, offset: 87953},
 										expr: &charClassMatcher{
-											pos:        position{line: 2764, col: 14, offset: 87882},
+											pos:        position{line: 2767, col: 14, offset: 87953},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14010,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2870, col: 10, offset: 90713},
+									pos: position{line: 2873, col: 10, offset: 90784},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2870, col: 10, offset: 90713},
+										pos:        position{line: 2873, col: 10, offset: 90784},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14440,10 +14440,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14833,10 +14833,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2870, col: 10, offset: 90713},
+											pos: position{line: 2873, col: 10, offset: 90784},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 10, offset: 90713},
+												pos:        position{line: 2873, col: 10, offset: 90784},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14887,12 +14887,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2855, col: 7, offset: 90365},
+										pos: position{line: 2858, col: 7, offset: 90436},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2855, col: 7, offset: 90365},
+											pos: position{line: 2858, col: 7, offset: 90436},
 											expr: &charClassMatcher{
-												pos:        position{line: 2855, col: 7, offset: 90365},
+												pos:        position{line: 2858, col: 7, offset: 90436},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14904,10 +14904,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2870, col: 10, offset: 90713},
+										pos: position{line: 2873, col: 10, offset: 90784},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2870, col: 10, offset: 90713},
+											pos:        position{line: 2873, col: 10, offset: 90784},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15100,12 +15100,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2855, col: 7, offset: 90365},
+										pos: position{line: 2858, col: 7, offset: 90436},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2855, col: 7, offset: 90365},
+											pos: position{line: 2858, col: 7, offset: 90436},
 											expr: &charClassMatcher{
-												pos:        position{line: 2855, col: 7, offset: 90365},
+												pos:        position{line: 2858, col: 7, offset: 90436},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15149,41 +15149,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2824, col: 17, offset: 89376},
+								pos: position{line: 2827, col: 17, offset: 89447},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2824, col: 17, offset: 89376},
+									pos:   position{line: 2827, col: 17, offset: 89447},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2841, col: 5, offset: 89830},
+										pos: position{line: 2844, col: 5, offset: 89901},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2841, col: 5, offset: 89830},
+											pos:   position{line: 2844, col: 5, offset: 89901},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2841, col: 14, offset: 89839},
+												pos: position{line: 2844, col: 14, offset: 89910},
 												expr: &choiceExpr{
-													pos: position{line: 2842, col: 9, offset: 89849},
+													pos: position{line: 2845, col: 9, offset: 89920},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2842, col: 9, offset: 89849},
+															pos: position{line: 2845, col: 9, offset: 89920},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2842, col: 9, offset: 89849},
+																pos: position{line: 2845, col: 9, offset: 89920},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2842, col: 9, offset: 89849},
+																		pos: position{line: 2845, col: 9, offset: 89920},
 																		expr: &litMatcher{
-																			pos:        position{line: 2842, col: 10, offset: 89850},
+																			pos:        position{line: 2845, col: 10, offset: 89921},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2843, col: 9, offset: 89878},
+																		pos: position{line: 2846, col: 9, offset: 89949},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2843, col: 10, offset: 89879},
+																			pos:        position{line: 2846, col: 10, offset: 89950},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15194,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2846, col: 11, offset: 90091},
+															pos: position{line: 2849, col: 11, offset: 90162},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2846, col: 11, offset: 90091},
+																	pos:        position{line: 2849, col: 11, offset: 90162},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2846, col: 19, offset: 90099},
+																	pos: position{line: 2849, col: 19, offset: 90170},
 																	expr: &seqExpr{
-																		pos: position{line: 2846, col: 21, offset: 90101},
+																		pos: position{line: 2849, col: 21, offset: 90172},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2846, col: 21, offset: 90101},
+																				pos: position{line: 2849, col: 21, offset: 90172},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15223,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2846, col: 28, offset: 90108},
+																				pos: position{line: 2849, col: 28, offset: 90179},
 																				expr: &notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -15622,10 +15622,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2849, col: 11, offset: 90228},
+															pos: position{line: 2852, col: 11, offset: 90299},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2849, col: 11, offset: 90228},
+																pos:        position{line: 2852, col: 11, offset: 90299},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15670,12 +15670,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30806},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 14, offset: 89306},
+								pos: position{line: 2823, col: 14, offset: 89377},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2820, col: 14, offset: 89306},
+									pos: position{line: 2823, col: 14, offset: 89377},
 									expr: &charClassMatcher{
-										pos:        position{line: 2820, col: 14, offset: 89306},
+										pos:        position{line: 2823, col: 14, offset: 89377},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15685,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15715,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -15769,12 +15769,12 @@ var g = &grammar{
 													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2816, col: 13, offset: 89239},
+														pos: position{line: 2819, col: 13, offset: 89310},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2816, col: 13, offset: 89239},
+															pos: position{line: 2819, col: 13, offset: 89310},
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 13, offset: 89239},
+																pos:        position{line: 2819, col: 13, offset: 89310},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15784,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15814,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -15867,10 +15867,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +15879,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +15909,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -15972,10 +15972,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +15984,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16014,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -16025,9 +16025,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -16043,21 +16043,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16067,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16097,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -16155,10 +16155,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16167,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16197,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -16208,9 +16208,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -16260,12 +16260,12 @@ var g = &grammar{
 													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2816, col: 13, offset: 89239},
+														pos: position{line: 2819, col: 13, offset: 89310},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2816, col: 13, offset: 89239},
+															pos: position{line: 2819, col: 13, offset: 89310},
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 13, offset: 89239},
+																pos:        position{line: 2819, col: 13, offset: 89310},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16275,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16305,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -16358,10 +16358,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16370,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16400,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -16463,10 +16463,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -16516,9 +16516,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -16534,21 +16534,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16558,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16588,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -16646,10 +16646,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16688,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -16699,9 +16699,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -16745,10 +16745,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34686},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16799,10 +16799,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35291},
 																										expr: &actionExpr{
-																											pos: position{line: 2870, col: 10, offset: 90713},
+																											pos: position{line: 2873, col: 10, offset: 90784},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2870, col: 10, offset: 90713},
+																												pos:        position{line: 2873, col: 10, offset: 90784},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16834,10 +16834,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35390},
 																										expr: &actionExpr{
-																											pos: position{line: 2870, col: 10, offset: 90713},
+																											pos: position{line: 2873, col: 10, offset: 90784},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2870, col: 10, offset: 90713},
+																												pos:        position{line: 2873, col: 10, offset: 90784},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16869,10 +16869,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2870, col: 10, offset: 90713},
+																											pos: position{line: 2873, col: 10, offset: 90784},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2870, col: 10, offset: 90713},
+																												pos:        position{line: 2873, col: 10, offset: 90784},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16897,9 +16897,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35609},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2887, col: 11, offset: 91047},
+																										pos: position{line: 2890, col: 11, offset: 91118},
 																										expr: &anyMatcher{
-																											line: 2887, col: 13, offset: 91049,
+																											line: 2890, col: 13, offset: 91120,
 																										},
 																									},
 																									&litMatcher{
@@ -16940,10 +16940,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34879},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16963,10 +16963,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16984,28 +16984,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -17055,12 +17055,12 @@ var g = &grammar{
 																		pos:   position{line: 2480, col: 49, offset: 79725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 13, offset: 89239},
+																			pos: position{line: 2819, col: 13, offset: 89310},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2816, col: 13, offset: 89239},
+																				pos: position{line: 2819, col: 13, offset: 89310},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 13, offset: 89239},
+																					pos:        position{line: 2819, col: 13, offset: 89310},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17070,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17100,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -17153,10 +17153,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23686},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17165,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -17258,10 +17258,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23686},
 																													expr: &actionExpr{
-																														pos: position{line: 2870, col: 10, offset: 90713},
+																														pos: position{line: 2873, col: 10, offset: 90784},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2870, col: 10, offset: 90713},
+																															pos:        position{line: 2873, col: 10, offset: 90784},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17270,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2892, col: 8, offset: 91111},
+																													pos: position{line: 2895, col: 8, offset: 91182},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2879, col: 12, offset: 90884},
+																															pos: position{line: 2882, col: 12, offset: 90955},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2879, col: 13, offset: 90885},
+																																pos: position{line: 2882, col: 13, offset: 90956},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 13, offset: 90885},
+																																		pos:        position{line: 2882, col: 13, offset: 90956},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 20, offset: 90892},
+																																		pos:        position{line: 2882, col: 20, offset: 90963},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 29, offset: 90901},
+																																		pos:        position{line: 2882, col: 29, offset: 90972},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17300,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2889, col: 8, offset: 91061},
+																															pos: position{line: 2892, col: 8, offset: 91132},
 																															expr: &anyMatcher{
-																																line: 2889, col: 9, offset: 91062,
+																																line: 2892, col: 9, offset: 91133,
 																															},
 																														},
 																													},
@@ -17311,9 +17311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -17329,21 +17329,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2887, col: 11, offset: 91047},
+																											pos: position{line: 2890, col: 11, offset: 91118},
 																											expr: &anyMatcher{
-																												line: 2887, col: 13, offset: 91049,
+																												line: 2890, col: 13, offset: 91120,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2816, col: 13, offset: 89239},
+																												pos: position{line: 2819, col: 13, offset: 89310},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2816, col: 13, offset: 89239},
+																													pos: position{line: 2819, col: 13, offset: 89310},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2816, col: 13, offset: 89239},
+																														pos:        position{line: 2819, col: 13, offset: 89310},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -17441,10 +17441,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17453,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17483,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -17494,9 +17494,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -17522,10 +17522,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35887},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17627,10 +17627,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36518},
 																													expr: &actionExpr{
-																														pos: position{line: 2870, col: 10, offset: 90713},
+																														pos: position{line: 2873, col: 10, offset: 90784},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2870, col: 10, offset: 90713},
+																															pos:        position{line: 2873, col: 10, offset: 90784},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17777,28 +17777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -17889,10 +17889,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +17901,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +17931,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -17994,10 +17994,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2870, col: 10, offset: 90713},
+															pos: position{line: 2873, col: 10, offset: 90784},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 10, offset: 90713},
+																pos:        position{line: 2873, col: 10, offset: 90784},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18006,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18036,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -18071,12 +18071,12 @@ var g = &grammar{
 														pos:   position{line: 2480, col: 49, offset: 79725},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2816, col: 13, offset: 89239},
+															pos: position{line: 2819, col: 13, offset: 89310},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2816, col: 13, offset: 89239},
+																pos: position{line: 2819, col: 13, offset: 89310},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2816, col: 13, offset: 89239},
+																	pos:        position{line: 2819, col: 13, offset: 89310},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18086,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -18169,10 +18169,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18181,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18211,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -18274,10 +18274,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18286,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18316,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -18327,9 +18327,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -18345,21 +18345,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2816, col: 13, offset: 89239},
+																									pos: position{line: 2819, col: 13, offset: 89310},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2816, col: 13, offset: 89239},
+																										pos:        position{line: 2819, col: 13, offset: 89310},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -18457,10 +18457,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18469,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2892, col: 8, offset: 91111},
+																				pos: position{line: 2895, col: 8, offset: 91182},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2879, col: 12, offset: 90884},
+																						pos: position{line: 2882, col: 12, offset: 90955},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2879, col: 13, offset: 90885},
+																							pos: position{line: 2882, col: 13, offset: 90956},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 13, offset: 90885},
+																									pos:        position{line: 2882, col: 13, offset: 90956},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 20, offset: 90892},
+																									pos:        position{line: 2882, col: 20, offset: 90963},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 29, offset: 90901},
+																									pos:        position{line: 2882, col: 29, offset: 90972},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18499,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -18510,9 +18510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -18545,12 +18545,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2874, col: 11, offset: 90774},
+							pos: position{line: 2877, col: 11, offset: 90845},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2874, col: 11, offset: 90774},
+								pos: position{line: 2877, col: 11, offset: 90845},
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 11, offset: 90774},
+									pos:        position{line: 2877, col: 11, offset: 90845},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18567,28 +18567,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18597,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -18638,10 +18638,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35291},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18673,10 +18673,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35390},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18708,10 +18708,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18777,12 +18777,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39689},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2855, col: 7, offset: 90365},
+								pos: position{line: 2858, col: 7, offset: 90436},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2855, col: 7, offset: 90365},
+									pos: position{line: 2858, col: 7, offset: 90436},
 									expr: &charClassMatcher{
-										pos:        position{line: 2855, col: 7, offset: 90365},
+										pos:        position{line: 2858, col: 7, offset: 90436},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18851,12 +18851,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40149},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2764, col: 14, offset: 87882},
+									pos: position{line: 2767, col: 14, offset: 87953},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2764, col: 14, offset: 87882},
+										pos: position{line: 2767, col: 14, offset: 87953},
 										expr: &charClassMatcher{
-											pos:        position{line: 2764, col: 14, offset: 87882},
+											pos:        position{line: 2767, col: 14, offset: 87953},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18869,10 +18869,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2870, col: 10, offset: 90713},
+									pos: position{line: 2873, col: 10, offset: 90784},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2870, col: 10, offset: 90713},
+										pos:        position{line: 2873, col: 10, offset: 90784},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18992,48 +18992,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 15, offset: 40967},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2828, col: 13, offset: 89472},
+								pos: position{line: 2831, col: 13, offset: 89543},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2828, col: 13, offset: 89472},
+									pos: position{line: 2831, col: 13, offset: 89543},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2828, col: 13, offset: 89472},
+											pos:   position{line: 2831, col: 13, offset: 89543},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2828, col: 20, offset: 89479},
+												pos: position{line: 2831, col: 20, offset: 89550},
 												expr: &actionExpr{
-													pos: position{line: 2836, col: 11, offset: 89718},
+													pos: position{line: 2839, col: 11, offset: 89789},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2836, col: 12, offset: 89719},
+														pos: position{line: 2839, col: 12, offset: 89790},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2836, col: 12, offset: 89719},
+																pos:        position{line: 2839, col: 12, offset: 89790},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 24, offset: 89731},
+																pos:        position{line: 2839, col: 24, offset: 89802},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 37, offset: 89744},
+																pos:        position{line: 2839, col: 37, offset: 89815},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 48, offset: 89755},
+																pos:        position{line: 2839, col: 48, offset: 89826},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 59, offset: 89766},
+																pos:        position{line: 2839, col: 59, offset: 89837},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19044,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2828, col: 30, offset: 89489},
+											pos:   position{line: 2831, col: 30, offset: 89560},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2841, col: 5, offset: 89830},
+												pos: position{line: 2844, col: 5, offset: 89901},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2841, col: 5, offset: 89830},
+													pos:   position{line: 2844, col: 5, offset: 89901},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2841, col: 14, offset: 89839},
+														pos: position{line: 2844, col: 14, offset: 89910},
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 9, offset: 89849},
+															pos: position{line: 2845, col: 9, offset: 89920},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2842, col: 9, offset: 89849},
+																		pos: position{line: 2845, col: 9, offset: 89920},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				expr: &litMatcher{
-																					pos:        position{line: 2842, col: 10, offset: 89850},
+																					pos:        position{line: 2845, col: 10, offset: 89921},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2843, col: 9, offset: 89878},
+																				pos: position{line: 2846, col: 9, offset: 89949},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2843, col: 10, offset: 89879},
+																					pos:        position{line: 2846, col: 10, offset: 89950},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19086,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2846, col: 11, offset: 90091},
+																	pos: position{line: 2849, col: 11, offset: 90162},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2846, col: 11, offset: 90091},
+																			pos:        position{line: 2849, col: 11, offset: 90162},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2846, col: 19, offset: 90099},
+																			pos: position{line: 2849, col: 19, offset: 90170},
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 21, offset: 90101},
+																				pos: position{line: 2849, col: 21, offset: 90172},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19115,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2846, col: 28, offset: 90108},
+																						pos: position{line: 2849, col: 28, offset: 90179},
 																						expr: &notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -19514,10 +19514,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2849, col: 11, offset: 90228},
+																	pos: position{line: 2852, col: 11, offset: 90299},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2849, col: 11, offset: 90228},
+																		pos:        position{line: 2852, col: 11, offset: 90299},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19544,10 +19544,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 61, offset: 41013},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19556,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19586,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -19625,48 +19625,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41259},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2828, col: 13, offset: 89472},
+								pos: position{line: 2831, col: 13, offset: 89543},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2828, col: 13, offset: 89472},
+									pos: position{line: 2831, col: 13, offset: 89543},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2828, col: 13, offset: 89472},
+											pos:   position{line: 2831, col: 13, offset: 89543},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2828, col: 20, offset: 89479},
+												pos: position{line: 2831, col: 20, offset: 89550},
 												expr: &actionExpr{
-													pos: position{line: 2836, col: 11, offset: 89718},
+													pos: position{line: 2839, col: 11, offset: 89789},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2836, col: 12, offset: 89719},
+														pos: position{line: 2839, col: 12, offset: 89790},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2836, col: 12, offset: 89719},
+																pos:        position{line: 2839, col: 12, offset: 89790},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 24, offset: 89731},
+																pos:        position{line: 2839, col: 24, offset: 89802},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 37, offset: 89744},
+																pos:        position{line: 2839, col: 37, offset: 89815},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 48, offset: 89755},
+																pos:        position{line: 2839, col: 48, offset: 89826},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2836, col: 59, offset: 89766},
+																pos:        position{line: 2839, col: 59, offset: 89837},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19677,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2828, col: 30, offset: 89489},
+											pos:   position{line: 2831, col: 30, offset: 89560},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2841, col: 5, offset: 89830},
+												pos: position{line: 2844, col: 5, offset: 89901},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2841, col: 5, offset: 89830},
+													pos:   position{line: 2844, col: 5, offset: 89901},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2841, col: 14, offset: 89839},
+														pos: position{line: 2844, col: 14, offset: 89910},
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 9, offset: 89849},
+															pos: position{line: 2845, col: 9, offset: 89920},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2842, col: 9, offset: 89849},
+																		pos: position{line: 2845, col: 9, offset: 89920},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				expr: &litMatcher{
-																					pos:        position{line: 2842, col: 10, offset: 89850},
+																					pos:        position{line: 2845, col: 10, offset: 89921},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2843, col: 9, offset: 89878},
+																				pos: position{line: 2846, col: 9, offset: 89949},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2843, col: 10, offset: 89879},
+																					pos:        position{line: 2846, col: 10, offset: 89950},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19719,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2846, col: 11, offset: 90091},
+																	pos: position{line: 2849, col: 11, offset: 90162},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2846, col: 11, offset: 90091},
+																			pos:        position{line: 2849, col: 11, offset: 90162},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2846, col: 19, offset: 90099},
+																			pos: position{line: 2849, col: 19, offset: 90170},
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 21, offset: 90101},
+																				pos: position{line: 2849, col: 21, offset: 90172},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19748,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2846, col: 28, offset: 90108},
+																						pos: position{line: 2849, col: 28, offset: 90179},
 																						expr: &notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -20147,10 +20147,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2849, col: 11, offset: 90228},
+																	pos: position{line: 2852, col: 11, offset: 90299},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2849, col: 11, offset: 90228},
+																		pos:        position{line: 2852, col: 11, offset: 90299},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20245,12 +20245,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2764, col: 14, offset: 87882},
+									pos: position{line: 2767, col: 14, offset: 87953},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2764, col: 14, offset: 87882},
+										pos: position{line: 2767, col: 14, offset: 87953},
 										expr: &charClassMatcher{
-											pos:        position{line: 2764, col: 14, offset: 87882},
+											pos:        position{line: 2767, col: 14, offset: 87953},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20328,21 +20328,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42545},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87955},
+										pos: position{line: 2772, col: 5, offset: 88026},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2769, col: 5, offset: 87955},
+											pos: position{line: 2772, col: 5, offset: 88026},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2769, col: 5, offset: 87955},
+													pos:   position{line: 2772, col: 5, offset: 88026},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2769, col: 11, offset: 87961},
+														pos: position{line: 2772, col: 11, offset: 88032},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2769, col: 11, offset: 87961},
+															pos: position{line: 2772, col: 11, offset: 88032},
 															expr: &charClassMatcher{
-																pos:        position{line: 2769, col: 11, offset: 87961},
+																pos:        position{line: 2772, col: 11, offset: 88032},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20352,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88019},
+													pos: position{line: 2775, col: 5, offset: 88090},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88030},
+														pos: position{line: 2776, col: 9, offset: 88101},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88030},
+																pos:        position{line: 2776, col: 9, offset: 88101},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2774, col: 9, offset: 88079},
+																pos: position{line: 2777, col: 9, offset: 88150},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88159},
+													pos: position{line: 2781, col: 5, offset: 88230},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88170},
+														pos: position{line: 2782, col: 9, offset: 88241},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88170},
+																pos:        position{line: 2782, col: 9, offset: 88241},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2779, col: 13, offset: 88174},
+																pos:        position{line: 2782, col: 13, offset: 88245},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20394,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 11, offset: 90774},
+										pos: position{line: 2877, col: 11, offset: 90845},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2874, col: 11, offset: 90774},
+											pos: position{line: 2877, col: 11, offset: 90845},
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 11, offset: 90774},
+												pos:        position{line: 2877, col: 11, offset: 90845},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20413,16 +20413,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2498, col: 5, offset: 80415},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2498, col: 5, offset: 80415},
+													run: (*parser).callonFootnoteElement26,
+												},
 												&litMatcher{
-													pos:        position{line: 2498, col: 5, offset: 80415},
+													pos:        position{line: 2501, col: 5, offset: 80486},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2498, col: 10, offset: 80420},
+													pos: position{line: 2501, col: 10, offset: 80491},
 													expr: &charClassMatcher{
-														pos:        position{line: 2498, col: 11, offset: 80421},
+														pos:        position{line: 2501, col: 11, offset: 80492},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20433,29 +20437,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2504, col: 5, offset: 80613},
-										run: (*parser).callonFootnoteElement29,
+										pos: position{line: 2507, col: 5, offset: 80684},
+										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2504, col: 5, offset: 80613},
+											pos: position{line: 2507, col: 5, offset: 80684},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2504, col: 5, offset: 80613},
-													run: (*parser).callonFootnoteElement31,
-												},
 												&andCodeExpr{
 													pos: position{line: 2507, col: 5, offset: 80684},
 													run: (*parser).callonFootnoteElement32,
 												},
+												&andCodeExpr{
+													pos: position{line: 2510, col: 5, offset: 80755},
+													run: (*parser).callonFootnoteElement33,
+												},
 												&litMatcher{
-													pos:        position{line: 2511, col: 5, offset: 80809},
+													pos:        position{line: 2514, col: 5, offset: 80880},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2511, col: 9, offset: 80813},
+													pos: position{line: 2514, col: 9, offset: 80884},
 													expr: &charClassMatcher{
-														pos:        position{line: 2511, col: 10, offset: 80814},
+														pos:        position{line: 2514, col: 10, offset: 80885},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20474,27 +20478,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2787, col: 5, offset: 88367},
-										run: (*parser).callonFootnoteElement38,
+										pos: position{line: 2790, col: 5, offset: 88438},
+										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2788, col: 9, offset: 88377},
+											pos: position{line: 2791, col: 9, offset: 88448},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2788, col: 10, offset: 88378},
+													pos:        position{line: 2791, col: 10, offset: 88449},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88475},
+													pos: position{line: 2793, col: 13, offset: 88546},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88475},
-															run: (*parser).callonFootnoteElement42,
+															pos: position{line: 2793, col: 13, offset: 88546},
+															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2793, col: 13, offset: 88575},
+															pos:        position{line: 2796, col: 13, offset: 88646},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20502,20 +20506,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2793, col: 19, offset: 88581},
+													pos:        position{line: 2796, col: 19, offset: 88652},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88619},
+													pos: position{line: 2799, col: 13, offset: 88690},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88619},
-															run: (*parser).callonFootnoteElement46,
+															pos: position{line: 2799, col: 13, offset: 88690},
+															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2799, col: 14, offset: 88712},
+															pos:        position{line: 2802, col: 14, offset: 88783},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20524,18 +20528,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 12, offset: 88756},
+													pos: position{line: 2804, col: 12, offset: 88827},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2801, col: 12, offset: 88756},
+															pos:        position{line: 2804, col: 12, offset: 88827},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2801, col: 16, offset: 88760},
+															pos: position{line: 2804, col: 16, offset: 88831},
 															expr: &litMatcher{
-																pos:        position{line: 2801, col: 17, offset: 88761},
+																pos:        position{line: 2804, col: 17, offset: 88832},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20552,13 +20556,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1206, col: 5, offset: 37418},
-										run: (*parser).callonFootnoteElement53,
+										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
 											pos: position{line: 1206, col: 5, offset: 37418},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1206, col: 5, offset: 37418},
-													run: (*parser).callonFootnoteElement55,
+													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
 													pos:        position{line: 1209, col: 5, offset: 37494},
@@ -20568,15 +20572,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1210, col: 5, offset: 37502},
-													run: (*parser).callonFootnoteElement57,
+													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37589},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
-														run: (*parser).callonFootnoteElement59,
+														pos: position{line: 2873, col: 10, offset: 90784},
+														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20587,28 +20591,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37596},
 													expr: &choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
-																run: (*parser).callonFootnoteElement63,
+																pos: position{line: 2882, col: 12, offset: 90955},
+																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20617,9 +20621,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -20630,13 +20634,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20109},
-										run: (*parser).callonFootnoteElement70,
+										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20109},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20109},
-													run: (*parser).callonFootnoteElement72,
+													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20181},
@@ -20646,7 +20650,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20319},
-																run: (*parser).callonFootnoteElement75,
+																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20319},
 																	exprs: []interface{}{
@@ -20661,7 +20665,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement79,
+																				run: (*parser).callonFootnoteElement80,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -20699,7 +20703,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20587},
-																run: (*parser).callonFootnoteElement85,
+																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20587},
 																	exprs: []interface{}{
@@ -20714,7 +20718,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement89,
+																				run: (*parser).callonFootnoteElement90,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -20752,7 +20756,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20791},
-																run: (*parser).callonFootnoteElement95,
+																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20791},
 																	exprs: []interface{}{
@@ -20767,7 +20771,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement99,
+																				run: (*parser).callonFootnoteElement100,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -20801,7 +20805,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20828},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21123},
-																					run: (*parser).callonFootnoteElement106,
+																					run: (*parser).callonFootnoteElement107,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21123},
 																						exprs: []interface{}{
@@ -20819,7 +20823,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21134},
-																											run: (*parser).callonFootnoteElement111,
+																											run: (*parser).callonFootnoteElement112,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21134},
 																												val:        "[A-Za-z]",
@@ -20830,7 +20834,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21188},
-																											run: (*parser).callonFootnoteElement113,
+																											run: (*parser).callonFootnoteElement114,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21188},
 																												expr: &charClassMatcher{
@@ -20861,7 +20865,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 20962},
-																run: (*parser).callonFootnoteElement117,
+																run: (*parser).callonFootnoteElement118,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 20962},
 																	exprs: []interface{}{
@@ -20876,7 +20880,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement121,
+																				run: (*parser).callonFootnoteElement122,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -20910,7 +20914,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21000},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21123},
-																					run: (*parser).callonFootnoteElement128,
+																					run: (*parser).callonFootnoteElement129,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21123},
 																						exprs: []interface{}{
@@ -20928,7 +20932,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21134},
-																											run: (*parser).callonFootnoteElement133,
+																											run: (*parser).callonFootnoteElement134,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21134},
 																												val:        "[A-Za-z]",
@@ -20939,7 +20943,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21188},
-																											run: (*parser).callonFootnoteElement135,
+																											run: (*parser).callonFootnoteElement136,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21188},
 																												expr: &charClassMatcher{
@@ -20976,20 +20980,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2467, col: 5, offset: 79244},
-										run: (*parser).callonFootnoteElement139,
+										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
 											pos: position{line: 2467, col: 5, offset: 79244},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2467, col: 5, offset: 79244},
-													run: (*parser).callonFootnoteElement141,
+													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
 													pos:   position{line: 2470, col: 5, offset: 79320},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2471, col: 9, offset: 79338},
-														run: (*parser).callonFootnoteElement143,
+														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
 															pos:        position{line: 2471, col: 10, offset: 79339},
 															val:        "[<>&]",
@@ -21003,25 +21007,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2879, col: 12, offset: 90884},
-										run: (*parser).callonFootnoteElement145,
+										pos: position{line: 2882, col: 12, offset: 90955},
+										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2879, col: 13, offset: 90885},
+											pos: position{line: 2882, col: 13, offset: 90956},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2879, col: 13, offset: 90885},
+													pos:        position{line: 2882, col: 13, offset: 90956},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 20, offset: 90892},
+													pos:        position{line: 2882, col: 20, offset: 90963},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 29, offset: 90901},
+													pos:        position{line: 2882, col: 29, offset: 90972},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21030,10 +21034,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2809, col: 12, offset: 89021},
-										run: (*parser).callonFootnoteElement150,
+										pos: position{line: 2812, col: 12, offset: 89092},
+										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2809, col: 12, offset: 89021},
+											pos:        position{line: 2812, col: 12, offset: 89092},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21165,55 +21169,55 @@ var g = &grammar{
 									pos:   position{line: 1406, col: 5, offset: 45251},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 23, offset: 89599},
+										pos: position{line: 2835, col: 23, offset: 89670},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2832, col: 23, offset: 89599},
+											pos: position{line: 2835, col: 23, offset: 89670},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2832, col: 23, offset: 89599},
+													pos: position{line: 2835, col: 23, offset: 89670},
 													expr: &litMatcher{
-														pos:        position{line: 2832, col: 24, offset: 89600},
+														pos:        position{line: 2835, col: 24, offset: 89671},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 28, offset: 89604},
+													pos:   position{line: 2835, col: 28, offset: 89675},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 11, offset: 89718},
+														pos: position{line: 2839, col: 11, offset: 89789},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 12, offset: 89719},
+															pos: position{line: 2839, col: 12, offset: 89790},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2836, col: 12, offset: 89719},
+																	pos:        position{line: 2839, col: 12, offset: 89790},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 24, offset: 89731},
+																	pos:        position{line: 2839, col: 24, offset: 89802},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 37, offset: 89744},
+																	pos:        position{line: 2839, col: 37, offset: 89815},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 48, offset: 89755},
+																	pos:        position{line: 2839, col: 48, offset: 89826},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 59, offset: 89766},
+																	pos:        position{line: 2839, col: 59, offset: 89837},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21223,38 +21227,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 44, offset: 89620},
+													pos:   position{line: 2835, col: 44, offset: 89691},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 5, offset: 89830},
+														pos: position{line: 2844, col: 5, offset: 89901},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2841, col: 5, offset: 89830},
+															pos:   position{line: 2844, col: 5, offset: 89901},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2841, col: 14, offset: 89839},
+																pos: position{line: 2844, col: 14, offset: 89910},
 																expr: &choiceExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2842, col: 9, offset: 89849},
+																			pos: position{line: 2845, col: 9, offset: 89920},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 9, offset: 89849},
+																						pos: position{line: 2845, col: 9, offset: 89920},
 																						expr: &litMatcher{
-																							pos:        position{line: 2842, col: 10, offset: 89850},
+																							pos:        position{line: 2845, col: 10, offset: 89921},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2843, col: 9, offset: 89878},
+																						pos: position{line: 2846, col: 9, offset: 89949},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2843, col: 10, offset: 89879},
+																							pos:        position{line: 2846, col: 10, offset: 89950},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21265,27 +21269,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2846, col: 11, offset: 90091},
+																			pos: position{line: 2849, col: 11, offset: 90162},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2846, col: 11, offset: 90091},
+																					pos:        position{line: 2849, col: 11, offset: 90162},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2846, col: 19, offset: 90099},
+																					pos: position{line: 2849, col: 19, offset: 90170},
 																					expr: &seqExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2846, col: 21, offset: 90101},
+																								pos: position{line: 2849, col: 21, offset: 90172},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21294,11 +21298,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2846, col: 28, offset: 90108},
+																								pos: position{line: 2849, col: 28, offset: 90179},
 																								expr: &notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -21693,10 +21697,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2849, col: 11, offset: 90228},
+																			pos: position{line: 2852, col: 11, offset: 90299},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2849, col: 11, offset: 90228},
+																				pos:        position{line: 2852, col: 11, offset: 90299},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21871,48 +21875,48 @@ var g = &grammar{
 									pos:   position{line: 1419, col: 17, offset: 45666},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 13, offset: 89472},
+										pos: position{line: 2831, col: 13, offset: 89543},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 13, offset: 89472},
+											pos: position{line: 2831, col: 13, offset: 89543},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2828, col: 13, offset: 89472},
+													pos:   position{line: 2831, col: 13, offset: 89543},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2828, col: 20, offset: 89479},
+														pos: position{line: 2831, col: 20, offset: 89550},
 														expr: &actionExpr{
-															pos: position{line: 2836, col: 11, offset: 89718},
+															pos: position{line: 2839, col: 11, offset: 89789},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2836, col: 12, offset: 89719},
+																pos: position{line: 2839, col: 12, offset: 89790},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 12, offset: 89719},
+																		pos:        position{line: 2839, col: 12, offset: 89790},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 24, offset: 89731},
+																		pos:        position{line: 2839, col: 24, offset: 89802},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 37, offset: 89744},
+																		pos:        position{line: 2839, col: 37, offset: 89815},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 48, offset: 89755},
+																		pos:        position{line: 2839, col: 48, offset: 89826},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 59, offset: 89766},
+																		pos:        position{line: 2839, col: 59, offset: 89837},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21923,38 +21927,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 30, offset: 89489},
+													pos:   position{line: 2831, col: 30, offset: 89560},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 5, offset: 89830},
+														pos: position{line: 2844, col: 5, offset: 89901},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2841, col: 5, offset: 89830},
+															pos:   position{line: 2844, col: 5, offset: 89901},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2841, col: 14, offset: 89839},
+																pos: position{line: 2844, col: 14, offset: 89910},
 																expr: &choiceExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2842, col: 9, offset: 89849},
+																			pos: position{line: 2845, col: 9, offset: 89920},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 9, offset: 89849},
+																						pos: position{line: 2845, col: 9, offset: 89920},
 																						expr: &litMatcher{
-																							pos:        position{line: 2842, col: 10, offset: 89850},
+																							pos:        position{line: 2845, col: 10, offset: 89921},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2843, col: 9, offset: 89878},
+																						pos: position{line: 2846, col: 9, offset: 89949},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2843, col: 10, offset: 89879},
+																							pos:        position{line: 2846, col: 10, offset: 89950},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21965,27 +21969,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2846, col: 11, offset: 90091},
+																			pos: position{line: 2849, col: 11, offset: 90162},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2846, col: 11, offset: 90091},
+																					pos:        position{line: 2849, col: 11, offset: 90162},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2846, col: 19, offset: 90099},
+																					pos: position{line: 2849, col: 19, offset: 90170},
 																					expr: &seqExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2846, col: 21, offset: 90101},
+																								pos: position{line: 2849, col: 21, offset: 90172},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21994,11 +21998,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2846, col: 28, offset: 90108},
+																								pos: position{line: 2849, col: 28, offset: 90179},
 																								expr: &notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -22393,10 +22397,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2849, col: 11, offset: 90228},
+																			pos: position{line: 2852, col: 11, offset: 90299},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2849, col: 11, offset: 90228},
+																				pos:        position{line: 2852, col: 11, offset: 90299},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22439,48 +22443,48 @@ var g = &grammar{
 									pos:   position{line: 1424, col: 13, offset: 45833},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 13, offset: 89472},
+										pos: position{line: 2831, col: 13, offset: 89543},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 13, offset: 89472},
+											pos: position{line: 2831, col: 13, offset: 89543},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2828, col: 13, offset: 89472},
+													pos:   position{line: 2831, col: 13, offset: 89543},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2828, col: 20, offset: 89479},
+														pos: position{line: 2831, col: 20, offset: 89550},
 														expr: &actionExpr{
-															pos: position{line: 2836, col: 11, offset: 89718},
+															pos: position{line: 2839, col: 11, offset: 89789},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2836, col: 12, offset: 89719},
+																pos: position{line: 2839, col: 12, offset: 89790},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 12, offset: 89719},
+																		pos:        position{line: 2839, col: 12, offset: 89790},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 24, offset: 89731},
+																		pos:        position{line: 2839, col: 24, offset: 89802},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 37, offset: 89744},
+																		pos:        position{line: 2839, col: 37, offset: 89815},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 48, offset: 89755},
+																		pos:        position{line: 2839, col: 48, offset: 89826},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2836, col: 59, offset: 89766},
+																		pos:        position{line: 2839, col: 59, offset: 89837},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22491,38 +22495,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 30, offset: 89489},
+													pos:   position{line: 2831, col: 30, offset: 89560},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 5, offset: 89830},
+														pos: position{line: 2844, col: 5, offset: 89901},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2841, col: 5, offset: 89830},
+															pos:   position{line: 2844, col: 5, offset: 89901},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2841, col: 14, offset: 89839},
+																pos: position{line: 2844, col: 14, offset: 89910},
 																expr: &choiceExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2842, col: 9, offset: 89849},
+																			pos: position{line: 2845, col: 9, offset: 89920},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 9, offset: 89849},
+																						pos: position{line: 2845, col: 9, offset: 89920},
 																						expr: &litMatcher{
-																							pos:        position{line: 2842, col: 10, offset: 89850},
+																							pos:        position{line: 2845, col: 10, offset: 89921},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2843, col: 9, offset: 89878},
+																						pos: position{line: 2846, col: 9, offset: 89949},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2843, col: 10, offset: 89879},
+																							pos:        position{line: 2846, col: 10, offset: 89950},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22533,27 +22537,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2846, col: 11, offset: 90091},
+																			pos: position{line: 2849, col: 11, offset: 90162},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2846, col: 11, offset: 90091},
+																					pos:        position{line: 2849, col: 11, offset: 90162},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2846, col: 19, offset: 90099},
+																					pos: position{line: 2849, col: 19, offset: 90170},
 																					expr: &seqExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2846, col: 21, offset: 90101},
+																								pos: position{line: 2849, col: 21, offset: 90172},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22562,11 +22566,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2846, col: 28, offset: 90108},
+																								pos: position{line: 2849, col: 28, offset: 90179},
 																								expr: &notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -22961,10 +22965,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2849, col: 11, offset: 90228},
+																			pos: position{line: 2852, col: 11, offset: 90299},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2849, col: 11, offset: 90228},
+																				pos:        position{line: 2852, col: 11, offset: 90299},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23016,55 +23020,55 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 9, offset: 46142},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 23, offset: 89599},
+										pos: position{line: 2835, col: 23, offset: 89670},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2832, col: 23, offset: 89599},
+											pos: position{line: 2835, col: 23, offset: 89670},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2832, col: 23, offset: 89599},
+													pos: position{line: 2835, col: 23, offset: 89670},
 													expr: &litMatcher{
-														pos:        position{line: 2832, col: 24, offset: 89600},
+														pos:        position{line: 2835, col: 24, offset: 89671},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 28, offset: 89604},
+													pos:   position{line: 2835, col: 28, offset: 89675},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 11, offset: 89718},
+														pos: position{line: 2839, col: 11, offset: 89789},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 12, offset: 89719},
+															pos: position{line: 2839, col: 12, offset: 89790},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2836, col: 12, offset: 89719},
+																	pos:        position{line: 2839, col: 12, offset: 89790},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 24, offset: 89731},
+																	pos:        position{line: 2839, col: 24, offset: 89802},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 37, offset: 89744},
+																	pos:        position{line: 2839, col: 37, offset: 89815},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 48, offset: 89755},
+																	pos:        position{line: 2839, col: 48, offset: 89826},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 59, offset: 89766},
+																	pos:        position{line: 2839, col: 59, offset: 89837},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23074,38 +23078,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 44, offset: 89620},
+													pos:   position{line: 2835, col: 44, offset: 89691},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 5, offset: 89830},
+														pos: position{line: 2844, col: 5, offset: 89901},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2841, col: 5, offset: 89830},
+															pos:   position{line: 2844, col: 5, offset: 89901},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2841, col: 14, offset: 89839},
+																pos: position{line: 2844, col: 14, offset: 89910},
 																expr: &choiceExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2842, col: 9, offset: 89849},
+																			pos: position{line: 2845, col: 9, offset: 89920},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 9, offset: 89849},
+																						pos: position{line: 2845, col: 9, offset: 89920},
 																						expr: &litMatcher{
-																							pos:        position{line: 2842, col: 10, offset: 89850},
+																							pos:        position{line: 2845, col: 10, offset: 89921},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2843, col: 9, offset: 89878},
+																						pos: position{line: 2846, col: 9, offset: 89949},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2843, col: 10, offset: 89879},
+																							pos:        position{line: 2846, col: 10, offset: 89950},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23116,27 +23120,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2846, col: 11, offset: 90091},
+																			pos: position{line: 2849, col: 11, offset: 90162},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2846, col: 11, offset: 90091},
+																					pos:        position{line: 2849, col: 11, offset: 90162},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2846, col: 19, offset: 90099},
+																					pos: position{line: 2849, col: 19, offset: 90170},
 																					expr: &seqExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2846, col: 21, offset: 90101},
+																								pos: position{line: 2849, col: 21, offset: 90172},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23145,11 +23149,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2846, col: 28, offset: 90108},
+																								pos: position{line: 2849, col: 28, offset: 90179},
 																								expr: &notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -23544,10 +23548,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2849, col: 11, offset: 90228},
+																			pos: position{line: 2852, col: 11, offset: 90299},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2849, col: 11, offset: 90228},
+																				pos:        position{line: 2852, col: 11, offset: 90299},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23587,55 +23591,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46312},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 23, offset: 89599},
+										pos: position{line: 2835, col: 23, offset: 89670},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2832, col: 23, offset: 89599},
+											pos: position{line: 2835, col: 23, offset: 89670},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2832, col: 23, offset: 89599},
+													pos: position{line: 2835, col: 23, offset: 89670},
 													expr: &litMatcher{
-														pos:        position{line: 2832, col: 24, offset: 89600},
+														pos:        position{line: 2835, col: 24, offset: 89671},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 28, offset: 89604},
+													pos:   position{line: 2835, col: 28, offset: 89675},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 11, offset: 89718},
+														pos: position{line: 2839, col: 11, offset: 89789},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 12, offset: 89719},
+															pos: position{line: 2839, col: 12, offset: 89790},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2836, col: 12, offset: 89719},
+																	pos:        position{line: 2839, col: 12, offset: 89790},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 24, offset: 89731},
+																	pos:        position{line: 2839, col: 24, offset: 89802},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 37, offset: 89744},
+																	pos:        position{line: 2839, col: 37, offset: 89815},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 48, offset: 89755},
+																	pos:        position{line: 2839, col: 48, offset: 89826},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2836, col: 59, offset: 89766},
+																	pos:        position{line: 2839, col: 59, offset: 89837},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23645,38 +23649,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 44, offset: 89620},
+													pos:   position{line: 2835, col: 44, offset: 89691},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 5, offset: 89830},
+														pos: position{line: 2844, col: 5, offset: 89901},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2841, col: 5, offset: 89830},
+															pos:   position{line: 2844, col: 5, offset: 89901},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2841, col: 14, offset: 89839},
+																pos: position{line: 2844, col: 14, offset: 89910},
 																expr: &choiceExpr{
-																	pos: position{line: 2842, col: 9, offset: 89849},
+																	pos: position{line: 2845, col: 9, offset: 89920},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2842, col: 9, offset: 89849},
+																			pos: position{line: 2845, col: 9, offset: 89920},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 9, offset: 89849},
+																				pos: position{line: 2845, col: 9, offset: 89920},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 9, offset: 89849},
+																						pos: position{line: 2845, col: 9, offset: 89920},
 																						expr: &litMatcher{
-																							pos:        position{line: 2842, col: 10, offset: 89850},
+																							pos:        position{line: 2845, col: 10, offset: 89921},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2843, col: 9, offset: 89878},
+																						pos: position{line: 2846, col: 9, offset: 89949},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2843, col: 10, offset: 89879},
+																							pos:        position{line: 2846, col: 10, offset: 89950},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23687,27 +23691,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2846, col: 11, offset: 90091},
+																			pos: position{line: 2849, col: 11, offset: 90162},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2846, col: 11, offset: 90091},
+																					pos:        position{line: 2849, col: 11, offset: 90162},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2846, col: 19, offset: 90099},
+																					pos: position{line: 2849, col: 19, offset: 90170},
 																					expr: &seqExpr{
-																						pos: position{line: 2846, col: 21, offset: 90101},
+																						pos: position{line: 2849, col: 21, offset: 90172},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2846, col: 21, offset: 90101},
+																								pos: position{line: 2849, col: 21, offset: 90172},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23716,11 +23720,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2846, col: 28, offset: 90108},
+																								pos: position{line: 2849, col: 28, offset: 90179},
 																								expr: &notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -24115,10 +24119,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2849, col: 11, offset: 90228},
+																			pos: position{line: 2852, col: 11, offset: 90299},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2849, col: 11, offset: 90228},
+																				pos:        position{line: 2852, col: 11, offset: 90299},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24184,10 +24188,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24354,12 +24358,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24402,28 +24406,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24432,9 +24436,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -24464,10 +24468,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24508,12 +24512,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24585,12 +24589,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2874, col: 11, offset: 90774},
+																			pos: position{line: 2877, col: 11, offset: 90845},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 90774},
+																				pos:        position{line: 2877, col: 11, offset: 90845},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24634,28 +24638,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24664,9 +24668,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -24724,12 +24728,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24772,28 +24776,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24802,9 +24806,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -24869,28 +24873,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1662, col: 35, offset: 53866},
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24899,9 +24903,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -24964,10 +24968,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1680, col: 9, offset: 54371},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24976,28 +24980,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25006,9 +25010,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -25022,18 +25026,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25042,28 +25046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25072,9 +25076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -25093,12 +25097,12 @@ var g = &grammar{
 																	pos: position{line: 1687, col: 9, offset: 54519},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 90774},
+																			pos: position{line: 2877, col: 11, offset: 90845},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2874, col: 11, offset: 90774},
+																				pos: position{line: 2877, col: 11, offset: 90845},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 11, offset: 90774},
+																					pos:        position{line: 2877, col: 11, offset: 90845},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25125,28 +25129,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25155,9 +25159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -25215,9 +25219,9 @@ var g = &grammar{
 					pos: position{line: 1487, col: 5, offset: 48062},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&labeledExpr{
@@ -25241,18 +25245,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2887, col: 11, offset: 91047},
+																	pos: position{line: 2890, col: 11, offset: 91118},
 																	expr: &anyMatcher{
-																		line: 2887, col: 13, offset: 91049,
+																		line: 2890, col: 13, offset: 91120,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25261,28 +25265,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25291,9 +25295,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -25326,10 +25330,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25496,12 +25500,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25544,28 +25548,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25574,9 +25578,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -25606,10 +25610,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25650,12 +25654,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25727,12 +25731,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2874, col: 11, offset: 90774},
+																									pos: position{line: 2877, col: 11, offset: 90845},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 11, offset: 90774},
+																										pos:        position{line: 2877, col: 11, offset: 90845},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25776,28 +25780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25806,9 +25810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -25866,12 +25870,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25914,28 +25918,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25944,9 +25948,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -26011,28 +26015,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26041,9 +26045,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -26106,10 +26110,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1680, col: 9, offset: 54371},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26118,28 +26122,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26148,9 +26152,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -26164,18 +26168,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2887, col: 11, offset: 91047},
+																													pos: position{line: 2890, col: 11, offset: 91118},
 																													expr: &anyMatcher{
-																														line: 2887, col: 13, offset: 91049,
+																														line: 2890, col: 13, offset: 91120,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2870, col: 10, offset: 90713},
+																														pos: position{line: 2873, col: 10, offset: 90784},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2870, col: 10, offset: 90713},
+																															pos:        position{line: 2873, col: 10, offset: 90784},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26184,28 +26188,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2892, col: 8, offset: 91111},
+																													pos: position{line: 2895, col: 8, offset: 91182},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2879, col: 12, offset: 90884},
+																															pos: position{line: 2882, col: 12, offset: 90955},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2879, col: 13, offset: 90885},
+																																pos: position{line: 2882, col: 13, offset: 90956},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 13, offset: 90885},
+																																		pos:        position{line: 2882, col: 13, offset: 90956},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 20, offset: 90892},
+																																		pos:        position{line: 2882, col: 20, offset: 90963},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 29, offset: 90901},
+																																		pos:        position{line: 2882, col: 29, offset: 90972},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26214,9 +26218,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2889, col: 8, offset: 91061},
+																															pos: position{line: 2892, col: 8, offset: 91132},
 																															expr: &anyMatcher{
-																																line: 2889, col: 9, offset: 91062,
+																																line: 2892, col: 9, offset: 91133,
 																															},
 																														},
 																													},
@@ -26235,12 +26239,12 @@ var g = &grammar{
 																							pos: position{line: 1687, col: 9, offset: 54519},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 11, offset: 90774},
+																									pos: position{line: 2877, col: 11, offset: 90845},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2874, col: 11, offset: 90774},
+																										pos: position{line: 2877, col: 11, offset: 90845},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 11, offset: 90774},
+																											pos:        position{line: 2877, col: 11, offset: 90845},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26267,28 +26271,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26297,9 +26301,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -26360,10 +26364,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26530,12 +26534,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26578,28 +26582,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26608,9 +26612,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -26640,10 +26644,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26684,12 +26688,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26761,12 +26765,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2874, col: 11, offset: 90774},
+																									pos: position{line: 2877, col: 11, offset: 90845},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 11, offset: 90774},
+																										pos:        position{line: 2877, col: 11, offset: 90845},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26810,28 +26814,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26840,9 +26844,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -26900,12 +26904,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26948,28 +26952,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26978,9 +26982,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -27045,28 +27049,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27075,9 +27079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -27140,10 +27144,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1680, col: 9, offset: 54371},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27152,28 +27156,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27182,9 +27186,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -27198,18 +27202,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2887, col: 11, offset: 91047},
+																													pos: position{line: 2890, col: 11, offset: 91118},
 																													expr: &anyMatcher{
-																														line: 2887, col: 13, offset: 91049,
+																														line: 2890, col: 13, offset: 91120,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2870, col: 10, offset: 90713},
+																														pos: position{line: 2873, col: 10, offset: 90784},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2870, col: 10, offset: 90713},
+																															pos:        position{line: 2873, col: 10, offset: 90784},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27218,28 +27222,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2892, col: 8, offset: 91111},
+																													pos: position{line: 2895, col: 8, offset: 91182},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2879, col: 12, offset: 90884},
+																															pos: position{line: 2882, col: 12, offset: 90955},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2879, col: 13, offset: 90885},
+																																pos: position{line: 2882, col: 13, offset: 90956},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 13, offset: 90885},
+																																		pos:        position{line: 2882, col: 13, offset: 90956},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 20, offset: 90892},
+																																		pos:        position{line: 2882, col: 20, offset: 90963},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2879, col: 29, offset: 90901},
+																																		pos:        position{line: 2882, col: 29, offset: 90972},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27248,9 +27252,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2889, col: 8, offset: 91061},
+																															pos: position{line: 2892, col: 8, offset: 91132},
 																															expr: &anyMatcher{
-																																line: 2889, col: 9, offset: 91062,
+																																line: 2892, col: 9, offset: 91133,
 																															},
 																														},
 																													},
@@ -27269,12 +27273,12 @@ var g = &grammar{
 																							pos: position{line: 1687, col: 9, offset: 54519},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 11, offset: 90774},
+																									pos: position{line: 2877, col: 11, offset: 90845},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2874, col: 11, offset: 90774},
+																										pos: position{line: 2877, col: 11, offset: 90845},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 11, offset: 90774},
+																											pos:        position{line: 2877, col: 11, offset: 90845},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27301,28 +27305,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27331,9 +27335,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -27382,12 +27386,12 @@ var g = &grammar{
 													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2816, col: 13, offset: 89239},
+														pos: position{line: 2819, col: 13, offset: 89310},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2816, col: 13, offset: 89239},
+															pos: position{line: 2819, col: 13, offset: 89310},
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 13, offset: 89239},
+																pos:        position{line: 2819, col: 13, offset: 89310},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27397,28 +27401,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27427,9 +27431,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -27452,18 +27456,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2887, col: 11, offset: 91047},
+																	pos: position{line: 2890, col: 11, offset: 91118},
 																	expr: &anyMatcher{
-																		line: 2887, col: 13, offset: 91049,
+																		line: 2890, col: 13, offset: 91120,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27472,28 +27476,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27502,9 +27506,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -27527,10 +27531,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1536, col: 31, offset: 49640},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27539,25 +27543,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
+																pos: position{line: 2882, col: 12, offset: 90955},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27579,10 +27583,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27749,12 +27753,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27777,10 +27781,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27821,12 +27825,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27877,12 +27881,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27943,28 +27947,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1662, col: 35, offset: 53866},
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -27973,9 +27977,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -28032,7 +28036,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2760, col: 13, offset: 87808},
+																		pos:        position{line: 2763, col: 13, offset: 87879},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28082,10 +28086,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28094,28 +28098,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28124,9 +28128,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28171,10 +28175,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28183,28 +28187,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28213,9 +28217,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28256,10 +28260,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28268,28 +28272,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28298,9 +28302,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28345,10 +28349,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28357,28 +28361,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28387,9 +28391,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28434,10 +28438,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28446,28 +28450,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28476,9 +28480,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28523,10 +28527,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28535,28 +28539,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28565,9 +28569,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28612,10 +28616,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28624,28 +28628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28654,9 +28658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28701,10 +28705,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,28 +28717,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28743,9 +28747,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28790,10 +28794,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28802,28 +28806,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28832,9 +28836,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -28853,12 +28857,12 @@ var g = &grammar{
 													pos:   position{line: 1512, col: 5, offset: 49008},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2820, col: 14, offset: 89306},
+														pos: position{line: 2823, col: 14, offset: 89377},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2820, col: 14, offset: 89306},
+															pos: position{line: 2823, col: 14, offset: 89377},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 14, offset: 89306},
+																pos:        position{line: 2823, col: 14, offset: 89377},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28868,28 +28872,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28898,9 +28902,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -28935,10 +28939,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1529, col: 13, offset: 49432},
 											expr: &actionExpr{
-												pos: position{line: 2870, col: 10, offset: 90713},
+												pos: position{line: 2873, col: 10, offset: 90784},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2870, col: 10, offset: 90713},
+													pos:        position{line: 2873, col: 10, offset: 90784},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28947,25 +28951,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2879, col: 12, offset: 90884},
+											pos: position{line: 2882, col: 12, offset: 90955},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2879, col: 13, offset: 90885},
+												pos: position{line: 2882, col: 13, offset: 90956},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2879, col: 13, offset: 90885},
+														pos:        position{line: 2882, col: 13, offset: 90956},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2879, col: 20, offset: 90892},
+														pos:        position{line: 2882, col: 20, offset: 90963},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2879, col: 29, offset: 90901},
+														pos:        position{line: 2882, col: 29, offset: 90972},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28986,10 +28990,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1536, col: 31, offset: 49640},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -28998,25 +29002,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2879, col: 12, offset: 90884},
+							pos: position{line: 2882, col: 12, offset: 90955},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2879, col: 13, offset: 90885},
+								pos: position{line: 2882, col: 13, offset: 90956},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2879, col: 13, offset: 90885},
+										pos:        position{line: 2882, col: 13, offset: 90956},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2879, col: 20, offset: 90892},
+										pos:        position{line: 2882, col: 20, offset: 90963},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2879, col: 29, offset: 90901},
+										pos:        position{line: 2882, col: 29, offset: 90972},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29049,9 +29053,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49727},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -29077,10 +29081,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29247,12 +29251,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29295,28 +29299,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29325,9 +29329,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -29357,10 +29361,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29401,12 +29405,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29478,12 +29482,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2874, col: 11, offset: 90774},
+																			pos: position{line: 2877, col: 11, offset: 90845},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 90774},
+																				pos:        position{line: 2877, col: 11, offset: 90845},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29527,28 +29531,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29557,9 +29561,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -29617,12 +29621,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29665,28 +29669,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29695,9 +29699,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -29762,28 +29766,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1662, col: 35, offset: 53866},
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29792,9 +29796,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -29857,10 +29861,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1680, col: 9, offset: 54371},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29869,28 +29873,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29899,9 +29903,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -29915,18 +29919,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2887, col: 11, offset: 91047},
+																							pos: position{line: 2890, col: 11, offset: 91118},
 																							expr: &anyMatcher{
-																								line: 2887, col: 13, offset: 91049,
+																								line: 2890, col: 13, offset: 91120,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29935,28 +29939,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29965,9 +29969,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -29986,12 +29990,12 @@ var g = &grammar{
 																	pos: position{line: 1687, col: 9, offset: 54519},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 90774},
+																			pos: position{line: 2877, col: 11, offset: 90845},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2874, col: 11, offset: 90774},
+																				pos: position{line: 2877, col: 11, offset: 90845},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 11, offset: 90774},
+																					pos:        position{line: 2877, col: 11, offset: 90845},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30018,28 +30022,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30048,9 +30052,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -30091,18 +30095,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2887, col: 11, offset: 91047},
+													pos: position{line: 2890, col: 11, offset: 91118},
 													expr: &anyMatcher{
-														line: 2887, col: 13, offset: 91049,
+														line: 2890, col: 13, offset: 91120,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30111,28 +30115,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30141,9 +30145,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -30208,10 +30212,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30220,28 +30224,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30250,9 +30254,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -30313,10 +30317,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30325,28 +30329,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30355,9 +30359,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -30408,10 +30412,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30420,28 +30424,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30450,9 +30454,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -30513,10 +30517,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30525,28 +30529,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30555,9 +30559,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -30566,9 +30570,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -30584,21 +30588,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30608,28 +30612,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30638,9 +30642,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -30696,10 +30700,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30708,28 +30712,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30738,9 +30742,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -30749,9 +30753,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -30806,10 +30810,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30818,28 +30822,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30848,9 +30852,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -30922,10 +30926,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30934,28 +30938,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30964,9 +30968,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -30982,9 +30986,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -31000,21 +31004,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31024,28 +31028,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31054,9 +31058,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -31121,10 +31125,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31133,28 +31137,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31163,9 +31167,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -31181,9 +31185,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -31235,10 +31239,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31247,28 +31251,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31277,9 +31281,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -31313,10 +31317,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30149},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31325,28 +31329,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31355,9 +31359,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -31375,21 +31379,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31399,28 +31403,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31429,9 +31433,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -31459,10 +31463,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30149},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31471,28 +31475,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31501,9 +31505,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -31560,10 +31564,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31572,28 +31576,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31602,9 +31606,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -31676,10 +31680,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31688,28 +31692,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31718,9 +31722,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -31736,9 +31740,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -31754,21 +31758,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31778,28 +31782,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31808,9 +31812,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -31875,10 +31879,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31887,28 +31891,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31917,9 +31921,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -31935,9 +31939,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -31993,10 +31997,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32005,28 +32009,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32035,9 +32039,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -32109,10 +32113,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32121,28 +32125,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32151,9 +32155,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -32169,9 +32173,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -32187,21 +32191,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32211,28 +32215,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32241,9 +32245,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -32308,10 +32312,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32320,28 +32324,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32350,9 +32354,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -32368,9 +32372,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -32426,10 +32430,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32438,28 +32442,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32468,9 +32472,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -32542,10 +32546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32554,28 +32558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32584,9 +32588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -32602,9 +32606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -32620,21 +32624,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32644,28 +32648,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32674,9 +32678,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -32741,10 +32745,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32753,28 +32757,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32783,9 +32787,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -32801,9 +32805,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -32837,18 +32841,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2887, col: 11, offset: 91047},
+																					pos: position{line: 2890, col: 11, offset: 91118},
 																					expr: &anyMatcher{
-																						line: 2887, col: 13, offset: 91049,
+																						line: 2890, col: 13, offset: 91120,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32857,28 +32861,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32887,9 +32891,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -32908,12 +32912,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30684},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2820, col: 14, offset: 89306},
+																		pos: position{line: 2823, col: 14, offset: 89377},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2820, col: 14, offset: 89306},
+																			pos: position{line: 2823, col: 14, offset: 89377},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2820, col: 14, offset: 89306},
+																				pos:        position{line: 2823, col: 14, offset: 89377},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32923,28 +32927,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32953,9 +32957,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -32987,18 +32991,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2887, col: 11, offset: 91047},
+																								pos: position{line: 2890, col: 11, offset: 91118},
 																								expr: &anyMatcher{
-																									line: 2887, col: 13, offset: 91049,
+																									line: 2890, col: 13, offset: 91120,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33007,28 +33011,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33037,9 +33041,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -33058,12 +33062,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30684},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2820, col: 14, offset: 89306},
+																					pos: position{line: 2823, col: 14, offset: 89377},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2820, col: 14, offset: 89306},
+																						pos: position{line: 2823, col: 14, offset: 89377},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2820, col: 14, offset: 89306},
+																							pos:        position{line: 2823, col: 14, offset: 89377},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33073,28 +33077,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2892, col: 8, offset: 91111},
+																				pos: position{line: 2895, col: 8, offset: 91182},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2879, col: 12, offset: 90884},
+																						pos: position{line: 2882, col: 12, offset: 90955},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2879, col: 13, offset: 90885},
+																							pos: position{line: 2882, col: 13, offset: 90956},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 13, offset: 90885},
+																									pos:        position{line: 2882, col: 13, offset: 90956},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 20, offset: 90892},
+																									pos:        position{line: 2882, col: 20, offset: 90963},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 29, offset: 90901},
+																									pos:        position{line: 2882, col: 29, offset: 90972},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33103,9 +33107,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -33123,12 +33127,12 @@ var g = &grammar{
 																				pos:   position{line: 1784, col: 5, offset: 57605},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2820, col: 14, offset: 89306},
+																					pos: position{line: 2823, col: 14, offset: 89377},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2820, col: 14, offset: 89306},
+																						pos: position{line: 2823, col: 14, offset: 89377},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2820, col: 14, offset: 89306},
+																							pos:        position{line: 2823, col: 14, offset: 89377},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33142,28 +33146,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2892, col: 8, offset: 91111},
+																				pos: position{line: 2895, col: 8, offset: 91182},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2879, col: 12, offset: 90884},
+																						pos: position{line: 2882, col: 12, offset: 90955},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2879, col: 13, offset: 90885},
+																							pos: position{line: 2882, col: 13, offset: 90956},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 13, offset: 90885},
+																									pos:        position{line: 2882, col: 13, offset: 90956},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 20, offset: 90892},
+																									pos:        position{line: 2882, col: 20, offset: 90963},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 29, offset: 90901},
+																									pos:        position{line: 2882, col: 29, offset: 90972},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33172,9 +33176,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -33221,10 +33225,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33233,28 +33237,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33263,9 +33267,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -33313,10 +33317,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 10, offset: 90713},
+																									pos: position{line: 2873, col: 10, offset: 90784},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 10, offset: 90713},
+																										pos:        position{line: 2873, col: 10, offset: 90784},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33325,28 +33329,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2892, col: 8, offset: 91111},
+																								pos: position{line: 2895, col: 8, offset: 91182},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2879, col: 12, offset: 90884},
+																										pos: position{line: 2882, col: 12, offset: 90955},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2879, col: 13, offset: 90885},
+																											pos: position{line: 2882, col: 13, offset: 90956},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 13, offset: 90885},
+																													pos:        position{line: 2882, col: 13, offset: 90956},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 20, offset: 90892},
+																													pos:        position{line: 2882, col: 20, offset: 90963},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2879, col: 29, offset: 90901},
+																													pos:        position{line: 2882, col: 29, offset: 90972},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33355,9 +33359,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2889, col: 8, offset: 91061},
+																										pos: position{line: 2892, col: 8, offset: 91132},
 																										expr: &anyMatcher{
-																											line: 2889, col: 9, offset: 91062,
+																											line: 2892, col: 9, offset: 91133,
 																										},
 																									},
 																								},
@@ -33366,9 +33370,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -33384,21 +33388,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33408,28 +33412,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33438,9 +33442,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -33485,10 +33489,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33497,28 +33501,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2892, col: 8, offset: 91111},
+																				pos: position{line: 2895, col: 8, offset: 91182},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2879, col: 12, offset: 90884},
+																						pos: position{line: 2882, col: 12, offset: 90955},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2879, col: 13, offset: 90885},
+																							pos: position{line: 2882, col: 13, offset: 90956},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 13, offset: 90885},
+																									pos:        position{line: 2882, col: 13, offset: 90956},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 20, offset: 90892},
+																									pos:        position{line: 2882, col: 20, offset: 90963},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 29, offset: 90901},
+																									pos:        position{line: 2882, col: 29, offset: 90972},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33527,9 +33531,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -33538,9 +33542,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -33596,10 +33600,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33608,28 +33612,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33638,9 +33642,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -33712,10 +33716,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33724,28 +33728,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33754,9 +33758,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -33772,9 +33776,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -33790,21 +33794,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33814,28 +33818,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33844,9 +33848,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -33911,10 +33915,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33923,28 +33927,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33953,9 +33957,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -33971,9 +33975,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -34029,10 +34033,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34041,28 +34045,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34071,9 +34075,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -34145,10 +34149,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34157,28 +34161,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34187,9 +34191,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -34205,9 +34209,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -34223,21 +34227,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34247,28 +34251,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34277,9 +34281,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -34344,10 +34348,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34356,28 +34360,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34386,9 +34390,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -34404,9 +34408,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -34462,10 +34466,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34474,28 +34478,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34504,9 +34508,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -34578,10 +34582,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34590,28 +34594,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34620,9 +34624,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -34638,9 +34642,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -34656,21 +34660,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2887, col: 11, offset: 91047},
+																						pos: position{line: 2890, col: 11, offset: 91118},
 																						expr: &anyMatcher{
-																							line: 2887, col: 13, offset: 91049,
+																							line: 2890, col: 13, offset: 91120,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2816, col: 13, offset: 89239},
+																							pos: position{line: 2819, col: 13, offset: 89310},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2816, col: 13, offset: 89239},
+																								pos: position{line: 2819, col: 13, offset: 89310},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 13, offset: 89239},
+																									pos:        position{line: 2819, col: 13, offset: 89310},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34680,28 +34684,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34710,9 +34714,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -34777,10 +34781,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2870, col: 10, offset: 90713},
+																								pos: position{line: 2873, col: 10, offset: 90784},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 10, offset: 90713},
+																									pos:        position{line: 2873, col: 10, offset: 90784},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34789,28 +34793,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2892, col: 8, offset: 91111},
+																							pos: position{line: 2895, col: 8, offset: 91182},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 12, offset: 90884},
+																									pos: position{line: 2882, col: 12, offset: 90955},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2879, col: 13, offset: 90885},
+																										pos: position{line: 2882, col: 13, offset: 90956},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 13, offset: 90885},
+																												pos:        position{line: 2882, col: 13, offset: 90956},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 20, offset: 90892},
+																												pos:        position{line: 2882, col: 20, offset: 90963},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2879, col: 29, offset: 90901},
+																												pos:        position{line: 2882, col: 29, offset: 90972},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34819,9 +34823,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2889, col: 8, offset: 91061},
+																									pos: position{line: 2892, col: 8, offset: 91132},
 																									expr: &anyMatcher{
-																										line: 2889, col: 9, offset: 91062,
+																										line: 2892, col: 9, offset: 91133,
 																									},
 																								},
 																							},
@@ -34837,9 +34841,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -34850,52 +34854,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2715, col: 18, offset: 86303},
+										pos: position{line: 2718, col: 18, offset: 86374},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2715, col: 18, offset: 86303},
+											pos: position{line: 2718, col: 18, offset: 86374},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2716, col: 9, offset: 86313},
+													pos: position{line: 2719, col: 9, offset: 86384},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2716, col: 9, offset: 86313},
+															pos:        position{line: 2719, col: 9, offset: 86384},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2717, col: 11, offset: 86349},
+															pos:        position{line: 2720, col: 11, offset: 86420},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2717, col: 19, offset: 86357},
+															pos:        position{line: 2720, col: 19, offset: 86428},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2717, col: 29, offset: 86367},
+															pos:        position{line: 2720, col: 29, offset: 86438},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2717, col: 37, offset: 86375},
+															pos:        position{line: 2720, col: 37, offset: 86446},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2717, col: 47, offset: 86385},
+															pos:        position{line: 2720, col: 47, offset: 86456},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2717, col: 55, offset: 86393},
+															pos:        position{line: 2720, col: 55, offset: 86464},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34903,12 +34907,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2718, col: 11, offset: 86451},
+													pos: position{line: 2721, col: 11, offset: 86522},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34917,28 +34921,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34947,36 +34951,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34985,9 +34989,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -35000,24 +35004,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2606, col: 5, offset: 83239},
+										pos: position{line: 2609, col: 5, offset: 83310},
 										run: (*parser).callonListContinuationElement1321,
 										expr: &seqExpr{
-											pos: position{line: 2606, col: 5, offset: 83239},
+											pos: position{line: 2609, col: 5, offset: 83310},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2612, col: 19, offset: 83396},
+													pos:        position{line: 2615, col: 19, offset: 83467},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2612, col: 26, offset: 83403},
+													pos: position{line: 2615, col: 26, offset: 83474},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
+														pos: position{line: 2873, col: 10, offset: 90784},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35026,28 +35030,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35056,20 +35060,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2607, col: 5, offset: 83263},
+													pos:   position{line: 2610, col: 5, offset: 83334},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2607, col: 11, offset: 83269},
+														pos: position{line: 2610, col: 11, offset: 83340},
 														expr: &choiceExpr{
-															pos: position{line: 2607, col: 12, offset: 83270},
+															pos: position{line: 2610, col: 12, offset: 83341},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
@@ -35078,18 +35082,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2887, col: 11, offset: 91047},
+																				pos: position{line: 2890, col: 11, offset: 91118},
 																				expr: &anyMatcher{
-																					line: 2887, col: 13, offset: 91049,
+																					line: 2890, col: 13, offset: 91120,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35098,28 +35102,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2892, col: 8, offset: 91111},
+																				pos: position{line: 2895, col: 8, offset: 91182},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2879, col: 12, offset: 90884},
+																						pos: position{line: 2882, col: 12, offset: 90955},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2879, col: 13, offset: 90885},
+																							pos: position{line: 2882, col: 13, offset: 90956},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 13, offset: 90885},
+																									pos:        position{line: 2882, col: 13, offset: 90956},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 20, offset: 90892},
+																									pos:        position{line: 2882, col: 20, offset: 90963},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2879, col: 29, offset: 90901},
+																									pos:        position{line: 2882, col: 29, offset: 90972},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35128,9 +35132,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2889, col: 8, offset: 91061},
+																						pos: position{line: 2892, col: 8, offset: 91132},
 																						expr: &anyMatcher{
-																							line: 2889, col: 9, offset: 91062,
+																							line: 2892, col: 9, offset: 91133,
 																						},
 																					},
 																				},
@@ -35139,32 +35143,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2619, col: 5, offset: 83515},
+																	pos: position{line: 2622, col: 5, offset: 83586},
 																	run: (*parser).callonListContinuationElement1353,
 																	expr: &seqExpr{
-																		pos: position{line: 2619, col: 5, offset: 83515},
+																		pos: position{line: 2622, col: 5, offset: 83586},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2619, col: 5, offset: 83515},
+																				pos: position{line: 2622, col: 5, offset: 83586},
 																				expr: &choiceExpr{
-																					pos: position{line: 2616, col: 22, offset: 83476},
+																					pos: position{line: 2619, col: 22, offset: 83547},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2612, col: 19, offset: 83396},
+																							pos: position{line: 2615, col: 19, offset: 83467},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2612, col: 19, offset: 83396},
+																									pos:        position{line: 2615, col: 19, offset: 83467},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2612, col: 26, offset: 83403},
+																									pos: position{line: 2615, col: 26, offset: 83474},
 																									expr: &actionExpr{
-																										pos: position{line: 2870, col: 10, offset: 90713},
+																										pos: position{line: 2873, col: 10, offset: 90784},
 																										run: (*parser).callonListContinuationElement1360,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 10, offset: 90713},
+																											pos:        position{line: 2873, col: 10, offset: 90784},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35173,28 +35177,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonListContinuationElement1363,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35203,9 +35207,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -35213,59 +35217,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2620, col: 5, offset: 83538},
+																				pos:   position{line: 2623, col: 5, offset: 83609},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2621, col: 9, offset: 83556},
+																					pos: position{line: 2624, col: 9, offset: 83627},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2621, col: 10, offset: 83557},
+																							pos: position{line: 2624, col: 10, offset: 83628},
 																							run: (*parser).callonListContinuationElement1374,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2621, col: 10, offset: 83557},
+																								pos:   position{line: 2624, col: 10, offset: 83628},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2621, col: 17, offset: 83564},
+																									pos: position{line: 2624, col: 17, offset: 83635},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2629, col: 21, offset: 83760},
+																											pos: position{line: 2632, col: 21, offset: 83831},
 																											run: (*parser).callonListContinuationElement1377,
 																											expr: &seqExpr{
-																												pos: position{line: 2629, col: 21, offset: 83760},
+																												pos: position{line: 2632, col: 21, offset: 83831},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2629, col: 21, offset: 83760},
+																														pos:   position{line: 2632, col: 21, offset: 83831},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2629, col: 27, offset: 83766},
+																															pos: position{line: 2632, col: 27, offset: 83837},
 																															expr: &actionExpr{
-																																pos: position{line: 2634, col: 5, offset: 83841},
+																																pos: position{line: 2637, col: 5, offset: 83912},
 																																run: (*parser).callonListContinuationElement1381,
 																																expr: &seqExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83841},
+																																	pos: position{line: 2637, col: 5, offset: 83912},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2634, col: 5, offset: 83841},
+																																			pos:        position{line: 2637, col: 5, offset: 83912},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2634, col: 9, offset: 83845},
+																																			pos: position{line: 2637, col: 9, offset: 83916},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2870, col: 10, offset: 90713},
+																																				pos: position{line: 2873, col: 10, offset: 90784},
 																																				run: (*parser).callonListContinuationElement1385,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2870, col: 10, offset: 90713},
+																																					pos:        position{line: 2873, col: 10, offset: 90784},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35274,21 +35278,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2634, col: 16, offset: 83852},
+																																			pos:   position{line: 2637, col: 16, offset: 83923},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2640, col: 5, offset: 84052},
+																																				pos: position{line: 2643, col: 5, offset: 84123},
 																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2640, col: 5, offset: 84052},
+																																					pos:   position{line: 2643, col: 5, offset: 84123},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2640, col: 14, offset: 84061},
+																																						pos: position{line: 2643, col: 14, offset: 84132},
 																																						run: (*parser).callonListContinuationElement1390,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2640, col: 14, offset: 84061},
+																																							pos: position{line: 2643, col: 14, offset: 84132},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2640, col: 14, offset: 84061},
+																																								pos:        position{line: 2643, col: 14, offset: 84132},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35305,28 +35309,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2892, col: 8, offset: 91111},
+																														pos: position{line: 2895, col: 8, offset: 91182},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2879, col: 12, offset: 90884},
+																																pos: position{line: 2882, col: 12, offset: 90955},
 																																run: (*parser).callonListContinuationElement1394,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2879, col: 13, offset: 90885},
+																																	pos: position{line: 2882, col: 13, offset: 90956},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2879, col: 13, offset: 90885},
+																																			pos:        position{line: 2882, col: 13, offset: 90956},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2879, col: 20, offset: 90892},
+																																			pos:        position{line: 2882, col: 20, offset: 90963},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2879, col: 29, offset: 90901},
+																																			pos:        position{line: 2882, col: 29, offset: 90972},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35335,9 +35339,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2889, col: 8, offset: 91061},
+																																pos: position{line: 2892, col: 8, offset: 91132},
 																																expr: &anyMatcher{
-																																	line: 2889, col: 9, offset: 91062,
+																																	line: 2892, col: 9, offset: 91133,
 																																},
 																															},
 																														},
@@ -35346,40 +35350,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2646, col: 24, offset: 84197},
+																											pos: position{line: 2649, col: 24, offset: 84268},
 																											run: (*parser).callonListContinuationElement1401,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2646, col: 24, offset: 84197},
+																												pos:   position{line: 2649, col: 24, offset: 84268},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2646, col: 30, offset: 84203},
+																													pos: position{line: 2649, col: 30, offset: 84274},
 																													expr: &actionExpr{
-																														pos: position{line: 2651, col: 5, offset: 84279},
+																														pos: position{line: 2654, col: 5, offset: 84350},
 																														run: (*parser).callonListContinuationElement1404,
 																														expr: &seqExpr{
-																															pos: position{line: 2651, col: 5, offset: 84279},
+																															pos: position{line: 2654, col: 5, offset: 84350},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2651, col: 5, offset: 84279},
+																																	pos: position{line: 2654, col: 5, offset: 84350},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2616, col: 22, offset: 83476},
+																																		pos: position{line: 2619, col: 22, offset: 83547},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2612, col: 19, offset: 83396},
+																																				pos: position{line: 2615, col: 19, offset: 83467},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2612, col: 19, offset: 83396},
+																																						pos:        position{line: 2615, col: 19, offset: 83467},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2612, col: 26, offset: 83403},
+																																						pos: position{line: 2615, col: 26, offset: 83474},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2870, col: 10, offset: 90713},
+																																							pos: position{line: 2873, col: 10, offset: 90784},
 																																							run: (*parser).callonListContinuationElement1411,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2870, col: 10, offset: 90713},
+																																								pos:        position{line: 2873, col: 10, offset: 90784},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35388,28 +35392,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2892, col: 8, offset: 91111},
+																																						pos: position{line: 2895, col: 8, offset: 91182},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2879, col: 12, offset: 90884},
+																																								pos: position{line: 2882, col: 12, offset: 90955},
 																																								run: (*parser).callonListContinuationElement1414,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2879, col: 13, offset: 90885},
+																																									pos: position{line: 2882, col: 13, offset: 90956},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2879, col: 13, offset: 90885},
+																																											pos:        position{line: 2882, col: 13, offset: 90956},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2879, col: 20, offset: 90892},
+																																											pos:        position{line: 2882, col: 20, offset: 90963},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2879, col: 29, offset: 90901},
+																																											pos:        position{line: 2882, col: 29, offset: 90972},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35418,9 +35422,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2889, col: 8, offset: 91061},
+																																								pos: position{line: 2892, col: 8, offset: 91132},
 																																								expr: &anyMatcher{
-																																									line: 2889, col: 9, offset: 91062,
+																																									line: 2892, col: 9, offset: 91133,
 																																								},
 																																							},
 																																						},
@@ -35428,16 +35432,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2889, col: 8, offset: 91061},
+																																				pos: position{line: 2892, col: 8, offset: 91132},
 																																				expr: &anyMatcher{
-																																					line: 2889, col: 9, offset: 91062,
+																																					line: 2892, col: 9, offset: 91133,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2652, col: 5, offset: 84302},
+																																	pos: position{line: 2655, col: 5, offset: 84373},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
 																																		run: (*parser).callonListContinuationElement1424,
@@ -35445,18 +35449,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2887, col: 11, offset: 91047},
+																																					pos: position{line: 2890, col: 11, offset: 91118},
 																																					expr: &anyMatcher{
-																																						line: 2887, col: 13, offset: 91049,
+																																						line: 2890, col: 13, offset: 91120,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2870, col: 10, offset: 90713},
+																																						pos: position{line: 2873, col: 10, offset: 90784},
 																																						run: (*parser).callonListContinuationElement1429,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2870, col: 10, offset: 90713},
+																																							pos:        position{line: 2873, col: 10, offset: 90784},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35465,28 +35469,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2892, col: 8, offset: 91111},
+																																					pos: position{line: 2895, col: 8, offset: 91182},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2879, col: 12, offset: 90884},
+																																							pos: position{line: 2882, col: 12, offset: 90955},
 																																							run: (*parser).callonListContinuationElement1432,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2879, col: 13, offset: 90885},
+																																								pos: position{line: 2882, col: 13, offset: 90956},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2879, col: 13, offset: 90885},
+																																										pos:        position{line: 2882, col: 13, offset: 90956},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2879, col: 20, offset: 90892},
+																																										pos:        position{line: 2882, col: 20, offset: 90963},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2879, col: 29, offset: 90901},
+																																										pos:        position{line: 2882, col: 29, offset: 90972},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35495,9 +35499,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2889, col: 8, offset: 91061},
+																																							pos: position{line: 2892, col: 8, offset: 91132},
 																																							expr: &anyMatcher{
-																																								line: 2889, col: 9, offset: 91062,
+																																								line: 2892, col: 9, offset: 91133,
 																																							},
 																																						},
 																																					},
@@ -35507,17 +35511,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2653, col: 5, offset: 84317},
+																																	pos:   position{line: 2656, col: 5, offset: 84388},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2653, col: 12, offset: 84324},
+																																		pos: position{line: 2656, col: 12, offset: 84395},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2670, col: 20, offset: 84788},
+																																			pos: position{line: 2673, col: 20, offset: 84859},
 																																			run: (*parser).callonListContinuationElement1441,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2670, col: 20, offset: 84788},
+																																				pos: position{line: 2673, col: 20, offset: 84859},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2670, col: 20, offset: 84788},
+																																					pos:        position{line: 2673, col: 20, offset: 84859},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35528,18 +35532,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2653, col: 31, offset: 84343},
+																																	pos:        position{line: 2656, col: 31, offset: 84414},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2653, col: 35, offset: 84347},
+																																	pos: position{line: 2656, col: 35, offset: 84418},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2870, col: 10, offset: 90713},
+																																		pos: position{line: 2873, col: 10, offset: 90784},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2870, col: 10, offset: 90713},
+																																			pos:        position{line: 2873, col: 10, offset: 90784},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35548,27 +35552,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2653, col: 42, offset: 84354},
+																																	pos: position{line: 2656, col: 42, offset: 84425},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2879, col: 12, offset: 90884},
+																																		pos: position{line: 2882, col: 12, offset: 90955},
 																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2879, col: 13, offset: 90885},
+																																			pos: position{line: 2882, col: 13, offset: 90956},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2879, col: 13, offset: 90885},
+																																					pos:        position{line: 2882, col: 13, offset: 90956},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2879, col: 20, offset: 90892},
+																																					pos:        position{line: 2882, col: 20, offset: 90963},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2879, col: 29, offset: 90901},
+																																					pos:        position{line: 2882, col: 29, offset: 90972},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35578,37 +35582,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2653, col: 51, offset: 84363},
+																																	pos:   position{line: 2656, col: 51, offset: 84434},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2659, col: 5, offset: 84522},
+																																		pos: position{line: 2662, col: 5, offset: 84593},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2660, col: 9, offset: 84532},
+																																			pos: position{line: 2663, col: 9, offset: 84603},
 																																			run: (*parser).callonListContinuationElement1456,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2660, col: 9, offset: 84532},
+																																				pos: position{line: 2663, col: 9, offset: 84603},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2660, col: 9, offset: 84532},
+																																						pos: position{line: 2663, col: 9, offset: 84603},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2616, col: 22, offset: 83476},
+																																							pos: position{line: 2619, col: 22, offset: 83547},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2612, col: 19, offset: 83396},
+																																									pos: position{line: 2615, col: 19, offset: 83467},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2612, col: 19, offset: 83396},
+																																											pos:        position{line: 2615, col: 19, offset: 83467},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2612, col: 26, offset: 83403},
+																																											pos: position{line: 2615, col: 26, offset: 83474},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2870, col: 10, offset: 90713},
+																																												pos: position{line: 2873, col: 10, offset: 90784},
 																																												run: (*parser).callonListContinuationElement1463,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2870, col: 10, offset: 90713},
+																																													pos:        position{line: 2873, col: 10, offset: 90784},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35617,28 +35621,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2892, col: 8, offset: 91111},
+																																											pos: position{line: 2895, col: 8, offset: 91182},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2879, col: 12, offset: 90884},
+																																													pos: position{line: 2882, col: 12, offset: 90955},
 																																													run: (*parser).callonListContinuationElement1466,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2879, col: 13, offset: 90885},
+																																														pos: position{line: 2882, col: 13, offset: 90956},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35647,9 +35651,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2889, col: 8, offset: 91061},
+																																													pos: position{line: 2892, col: 8, offset: 91132},
 																																													expr: &anyMatcher{
-																																														line: 2889, col: 9, offset: 91062,
+																																														line: 2892, col: 9, offset: 91133,
 																																													},
 																																												},
 																																											},
@@ -35657,16 +35661,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2889, col: 8, offset: 91061},
+																																									pos: position{line: 2892, col: 8, offset: 91132},
 																																									expr: &anyMatcher{
-																																										line: 2889, col: 9, offset: 91062,
+																																										line: 2892, col: 9, offset: 91133,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2661, col: 9, offset: 84559},
+																																						pos: position{line: 2664, col: 9, offset: 84630},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
 																																							run: (*parser).callonListContinuationElement1476,
@@ -35674,18 +35678,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2887, col: 11, offset: 91047},
+																																										pos: position{line: 2890, col: 11, offset: 91118},
 																																										expr: &anyMatcher{
-																																											line: 2887, col: 13, offset: 91049,
+																																											line: 2890, col: 13, offset: 91120,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2870, col: 10, offset: 90713},
+																																											pos: position{line: 2873, col: 10, offset: 90784},
 																																											run: (*parser).callonListContinuationElement1481,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2870, col: 10, offset: 90713},
+																																												pos:        position{line: 2873, col: 10, offset: 90784},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35694,28 +35698,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91111},
+																																										pos: position{line: 2895, col: 8, offset: 91182},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2879, col: 12, offset: 90884},
+																																												pos: position{line: 2882, col: 12, offset: 90955},
 																																												run: (*parser).callonListContinuationElement1484,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2879, col: 13, offset: 90885},
+																																													pos: position{line: 2882, col: 13, offset: 90956},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2879, col: 13, offset: 90885},
+																																															pos:        position{line: 2882, col: 13, offset: 90956},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2879, col: 20, offset: 90892},
+																																															pos:        position{line: 2882, col: 20, offset: 90963},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2879, col: 29, offset: 90901},
+																																															pos:        position{line: 2882, col: 29, offset: 90972},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35724,9 +35728,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2889, col: 8, offset: 91061},
+																																												pos: position{line: 2892, col: 8, offset: 91132},
 																																												expr: &anyMatcher{
-																																													line: 2889, col: 9, offset: 91062,
+																																													line: 2892, col: 9, offset: 91133,
 																																												},
 																																											},
 																																										},
@@ -35736,22 +35740,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2662, col: 9, offset: 84578},
+																																						pos: position{line: 2665, col: 9, offset: 84649},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2662, col: 11, offset: 84580},
+																																							pos: position{line: 2665, col: 11, offset: 84651},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2662, col: 11, offset: 84580},
+																																									pos:   position{line: 2665, col: 11, offset: 84651},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2662, col: 18, offset: 84587},
+																																										pos: position{line: 2665, col: 18, offset: 84658},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2670, col: 20, offset: 84788},
+																																											pos: position{line: 2673, col: 20, offset: 84859},
 																																											run: (*parser).callonListContinuationElement1495,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2670, col: 20, offset: 84788},
+																																												pos: position{line: 2673, col: 20, offset: 84859},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2670, col: 20, offset: 84788},
+																																													pos:        position{line: 2673, col: 20, offset: 84859},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35762,7 +35766,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2662, col: 37, offset: 84606},
+																																									pos:        position{line: 2665, col: 37, offset: 84677},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35771,15 +35775,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2663, col: 9, offset: 84619},
+																																						pos:   position{line: 2666, col: 9, offset: 84690},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2663, col: 18, offset: 84628},
+																																							pos: position{line: 2666, col: 18, offset: 84699},
 																																							run: (*parser).callonListContinuationElement1500,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2663, col: 18, offset: 84628},
+																																								pos: position{line: 2666, col: 18, offset: 84699},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2663, col: 18, offset: 84628},
+																																									pos:        position{line: 2666, col: 18, offset: 84699},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35789,30 +35793,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2665, col: 12, offset: 84690},
+																																						pos: position{line: 2668, col: 12, offset: 84761},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2892, col: 8, offset: 91111},
+																																							pos: position{line: 2895, col: 8, offset: 91182},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2879, col: 12, offset: 90884},
+																																									pos: position{line: 2882, col: 12, offset: 90955},
 																																									run: (*parser).callonListContinuationElement1505,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2879, col: 13, offset: 90885},
+																																										pos: position{line: 2882, col: 13, offset: 90956},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2879, col: 13, offset: 90885},
+																																												pos:        position{line: 2882, col: 13, offset: 90956},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2879, col: 20, offset: 90892},
+																																												pos:        position{line: 2882, col: 20, offset: 90963},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2879, col: 29, offset: 90901},
+																																												pos:        position{line: 2882, col: 29, offset: 90972},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35821,9 +35825,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2889, col: 8, offset: 91061},
+																																									pos: position{line: 2892, col: 8, offset: 91132},
 																																									expr: &anyMatcher{
-																																										line: 2889, col: 9, offset: 91062,
+																																										line: 2892, col: 9, offset: 91133,
 																																									},
 																																								},
 																																							},
@@ -35851,18 +35855,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2887, col: 11, offset: 91047},
+																										pos: position{line: 2890, col: 11, offset: 91118},
 																										expr: &anyMatcher{
-																											line: 2887, col: 13, offset: 91049,
+																											line: 2890, col: 13, offset: 91120,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2870, col: 10, offset: 90713},
+																											pos: position{line: 2873, col: 10, offset: 90784},
 																											run: (*parser).callonListContinuationElement1517,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2870, col: 10, offset: 90713},
+																												pos:        position{line: 2873, col: 10, offset: 90784},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35871,28 +35875,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2892, col: 8, offset: 91111},
+																										pos: position{line: 2895, col: 8, offset: 91182},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2879, col: 12, offset: 90884},
+																												pos: position{line: 2882, col: 12, offset: 90955},
 																												run: (*parser).callonListContinuationElement1520,
 																												expr: &choiceExpr{
-																													pos: position{line: 2879, col: 13, offset: 90885},
+																													pos: position{line: 2882, col: 13, offset: 90956},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2879, col: 13, offset: 90885},
+																															pos:        position{line: 2882, col: 13, offset: 90956},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2879, col: 20, offset: 90892},
+																															pos:        position{line: 2882, col: 20, offset: 90963},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2879, col: 29, offset: 90901},
+																															pos:        position{line: 2882, col: 29, offset: 90972},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35901,9 +35905,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2889, col: 8, offset: 91061},
+																												pos: position{line: 2892, col: 8, offset: 91132},
 																												expr: &anyMatcher{
-																													line: 2889, col: 9, offset: 91062,
+																													line: 2892, col: 9, offset: 91133,
 																												},
 																											},
 																										},
@@ -35922,24 +35926,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2616, col: 22, offset: 83476},
+													pos: position{line: 2619, col: 22, offset: 83547},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2612, col: 19, offset: 83396},
+															pos: position{line: 2615, col: 19, offset: 83467},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2612, col: 19, offset: 83396},
+																	pos:        position{line: 2615, col: 19, offset: 83467},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2612, col: 26, offset: 83403},
+																	pos: position{line: 2615, col: 26, offset: 83474},
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonListContinuationElement1531,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35948,28 +35952,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement1534,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35978,9 +35982,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -35988,9 +35992,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -36023,12 +36027,12 @@ var g = &grammar{
 													pos:   position{line: 2480, col: 49, offset: 79725},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2816, col: 13, offset: 89239},
+														pos: position{line: 2819, col: 13, offset: 89310},
 														run: (*parser).callonListContinuationElement1549,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2816, col: 13, offset: 89239},
+															pos: position{line: 2819, col: 13, offset: 89310},
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 13, offset: 89239},
+																pos:        position{line: 2819, col: 13, offset: 89310},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36038,28 +36042,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2892, col: 8, offset: 91111},
+													pos: position{line: 2895, col: 8, offset: 91182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonListContinuationElement1553,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36068,9 +36072,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2889, col: 8, offset: 91061},
+															pos: position{line: 2892, col: 8, offset: 91132},
 															expr: &anyMatcher{
-																line: 2889, col: 9, offset: 91062,
+																line: 2892, col: 9, offset: 91133,
 															},
 														},
 													},
@@ -36161,12 +36165,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1738, col: 13, offset: 56119},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 11, offset: 90774},
+																							pos: position{line: 2877, col: 11, offset: 90845},
 																							run: (*parser).callonListContinuationElement1581,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2874, col: 11, offset: 90774},
+																								pos: position{line: 2877, col: 11, offset: 90845},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 11, offset: 90774},
+																									pos:        position{line: 2877, col: 11, offset: 90845},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36202,18 +36206,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2887, col: 11, offset: 91047},
+																					pos: position{line: 2890, col: 11, offset: 91118},
 																					expr: &anyMatcher{
-																						line: 2887, col: 13, offset: 91049,
+																						line: 2890, col: 13, offset: 91120,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonListContinuationElement1593,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36222,28 +36226,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2892, col: 8, offset: 91111},
+																					pos: position{line: 2895, col: 8, offset: 91182},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonListContinuationElement1596,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36252,9 +36256,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2889, col: 8, offset: 91061},
+																							pos: position{line: 2892, col: 8, offset: 91132},
 																							expr: &anyMatcher{
-																								line: 2889, col: 9, offset: 91062,
+																								line: 2892, col: 9, offset: 91133,
 																							},
 																						},
 																					},
@@ -36277,10 +36281,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1536, col: 31, offset: 49640},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonListContinuationElement1607,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36289,25 +36293,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonListContinuationElement1609,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36329,10 +36333,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1577, col: 5, offset: 50855},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonListContinuationElement1618,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36499,12 +36503,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2874, col: 11, offset: 90774},
+																					pos: position{line: 2877, col: 11, offset: 90845},
 																					run: (*parser).callonListContinuationElement1652,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2874, col: 11, offset: 90774},
+																						pos: position{line: 2877, col: 11, offset: 90845},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 11, offset: 90774},
+																							pos:        position{line: 2877, col: 11, offset: 90845},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36527,10 +36531,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1627, col: 5, offset: 52817},
 																					expr: &actionExpr{
-																						pos: position{line: 2870, col: 10, offset: 90713},
+																						pos: position{line: 2873, col: 10, offset: 90784},
 																						run: (*parser).callonListContinuationElement1659,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 10, offset: 90713},
+																							pos:        position{line: 2873, col: 10, offset: 90784},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36571,12 +36575,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1667,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2874, col: 11, offset: 90774},
+																					pos: position{line: 2877, col: 11, offset: 90845},
 																					run: (*parser).callonListContinuationElement1668,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2874, col: 11, offset: 90774},
+																						pos: position{line: 2877, col: 11, offset: 90845},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 11, offset: 90774},
+																							pos:        position{line: 2877, col: 11, offset: 90845},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36627,12 +36631,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2874, col: 11, offset: 90774},
+																					pos: position{line: 2877, col: 11, offset: 90845},
 																					run: (*parser).callonListContinuationElement1680,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2874, col: 11, offset: 90774},
+																						pos: position{line: 2877, col: 11, offset: 90845},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 11, offset: 90774},
+																							pos:        position{line: 2877, col: 11, offset: 90845},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36693,28 +36697,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 8, offset: 91111},
+																									pos: position{line: 2895, col: 8, offset: 91182},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2879, col: 12, offset: 90884},
+																											pos: position{line: 2882, col: 12, offset: 90955},
 																											run: (*parser).callonListContinuationElement1698,
 																											expr: &choiceExpr{
-																												pos: position{line: 2879, col: 13, offset: 90885},
+																												pos: position{line: 2882, col: 13, offset: 90956},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 13, offset: 90885},
+																														pos:        position{line: 2882, col: 13, offset: 90956},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 20, offset: 90892},
+																														pos:        position{line: 2882, col: 20, offset: 90963},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2879, col: 29, offset: 90901},
+																														pos:        position{line: 2882, col: 29, offset: 90972},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36723,9 +36727,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2889, col: 8, offset: 91061},
+																											pos: position{line: 2892, col: 8, offset: 91132},
 																											expr: &anyMatcher{
-																												line: 2889, col: 9, offset: 91062,
+																												line: 2892, col: 9, offset: 91133,
 																											},
 																										},
 																									},
@@ -36782,7 +36786,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2760, col: 13, offset: 87808},
+																						pos:        position{line: 2763, col: 13, offset: 87879},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36832,10 +36836,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1729,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36844,28 +36848,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1732,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36874,9 +36878,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -36921,10 +36925,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1748,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36933,28 +36937,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1751,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36963,9 +36967,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37006,10 +37010,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1766,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37018,28 +37022,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1769,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37048,9 +37052,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37095,10 +37099,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37107,28 +37111,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37137,9 +37141,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37184,10 +37188,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1804,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37196,28 +37200,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1807,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37226,9 +37230,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37273,10 +37277,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1823,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37285,28 +37289,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1826,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37315,9 +37319,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37362,10 +37366,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37374,28 +37378,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1845,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37404,9 +37408,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37451,10 +37455,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37463,28 +37467,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1864,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37493,9 +37497,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37540,10 +37544,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2870, col: 10, offset: 90713},
+																												pos: position{line: 2873, col: 10, offset: 90784},
 																												run: (*parser).callonListContinuationElement1880,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 10, offset: 90713},
+																													pos:        position{line: 2873, col: 10, offset: 90784},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37552,28 +37556,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2892, col: 8, offset: 91111},
+																											pos: position{line: 2895, col: 8, offset: 91182},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2879, col: 12, offset: 90884},
+																													pos: position{line: 2882, col: 12, offset: 90955},
 																													run: (*parser).callonListContinuationElement1883,
 																													expr: &choiceExpr{
-																														pos: position{line: 2879, col: 13, offset: 90885},
+																														pos: position{line: 2882, col: 13, offset: 90956},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 13, offset: 90885},
+																																pos:        position{line: 2882, col: 13, offset: 90956},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 20, offset: 90892},
+																																pos:        position{line: 2882, col: 20, offset: 90963},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2879, col: 29, offset: 90901},
+																																pos:        position{line: 2882, col: 29, offset: 90972},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37582,9 +37586,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2889, col: 8, offset: 91061},
+																													pos: position{line: 2892, col: 8, offset: 91132},
 																													expr: &anyMatcher{
-																														line: 2889, col: 9, offset: 91062,
+																														line: 2892, col: 9, offset: 91133,
 																													},
 																												},
 																											},
@@ -37603,12 +37607,12 @@ var g = &grammar{
 																	pos:   position{line: 1512, col: 5, offset: 49008},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2820, col: 14, offset: 89306},
+																		pos: position{line: 2823, col: 14, offset: 89377},
 																		run: (*parser).callonListContinuationElement1891,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2820, col: 14, offset: 89306},
+																			pos: position{line: 2823, col: 14, offset: 89377},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2820, col: 14, offset: 89306},
+																				pos:        position{line: 2823, col: 14, offset: 89377},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37618,28 +37622,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonListContinuationElement1895,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37648,9 +37652,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -37715,10 +37719,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1705, col: 66, offset: 55054},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37732,25 +37736,25 @@ var g = &grammar{
 								pos: position{line: 1705, col: 75, offset: 55063},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2879, col: 12, offset: 90884},
+										pos: position{line: 2882, col: 12, offset: 90955},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2879, col: 13, offset: 90885},
+											pos: position{line: 2882, col: 13, offset: 90956},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2879, col: 13, offset: 90885},
+													pos:        position{line: 2882, col: 13, offset: 90956},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 20, offset: 90892},
+													pos:        position{line: 2882, col: 20, offset: 90963},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 29, offset: 90901},
+													pos:        position{line: 2882, col: 29, offset: 90972},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37759,9 +37763,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2889, col: 8, offset: 91061},
+										pos: position{line: 2892, col: 8, offset: 91132},
 										expr: &anyMatcher{
-											line: 2889, col: 9, offset: 91062,
+											line: 2892, col: 9, offset: 91133,
 										},
 									},
 									&ruleRefExpr{
@@ -37790,7 +37794,7 @@ var g = &grammar{
 								pos: position{line: 1746, col: 7, offset: 56318},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2760, col: 13, offset: 87808},
+										pos:        position{line: 2763, col: 13, offset: 87879},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -37809,12 +37813,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2874, col: 11, offset: 90774},
+													pos: position{line: 2877, col: 11, offset: 90845},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2874, col: 11, offset: 90774},
+														pos: position{line: 2877, col: 11, offset: 90845},
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 11, offset: 90774},
+															pos:        position{line: 2877, col: 11, offset: 90845},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37905,12 +37909,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1738, col: 13, offset: 56119},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37941,12 +37945,12 @@ var g = &grammar{
 											pos:   position{line: 1784, col: 5, offset: 57605},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2820, col: 14, offset: 89306},
+												pos: position{line: 2823, col: 14, offset: 89377},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2820, col: 14, offset: 89306},
+													pos: position{line: 2823, col: 14, offset: 89377},
 													expr: &charClassMatcher{
-														pos:        position{line: 2820, col: 14, offset: 89306},
+														pos:        position{line: 2823, col: 14, offset: 89377},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -37960,28 +37964,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2892, col: 8, offset: 91111},
+											pos: position{line: 2895, col: 8, offset: 91182},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2879, col: 12, offset: 90884},
+													pos: position{line: 2882, col: 12, offset: 90955},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2879, col: 13, offset: 90885},
+														pos: position{line: 2882, col: 13, offset: 90956},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2879, col: 13, offset: 90885},
+																pos:        position{line: 2882, col: 13, offset: 90956},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2879, col: 20, offset: 90892},
+																pos:        position{line: 2882, col: 20, offset: 90963},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2879, col: 29, offset: 90901},
+																pos:        position{line: 2882, col: 29, offset: 90972},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -37990,9 +37994,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -38017,9 +38021,9 @@ var g = &grammar{
 										pos: position{line: 1757, col: 9, offset: 56883},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2887, col: 11, offset: 91047},
+												pos: position{line: 2890, col: 11, offset: 91118},
 												expr: &anyMatcher{
-													line: 2887, col: 13, offset: 91049,
+													line: 2890, col: 13, offset: 91120,
 												},
 											},
 											&notExpr{
@@ -38031,18 +38035,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2887, col: 11, offset: 91047},
+																pos: position{line: 2890, col: 11, offset: 91118},
 																expr: &anyMatcher{
-																	line: 2887, col: 13, offset: 91049,
+																	line: 2890, col: 13, offset: 91120,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38051,28 +38055,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38081,9 +38085,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -38110,7 +38114,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2760, col: 13, offset: 87808},
+																	pos:        position{line: 2763, col: 13, offset: 87879},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38160,10 +38164,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38172,28 +38176,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38202,9 +38206,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38249,10 +38253,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38261,28 +38265,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38291,9 +38295,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38334,10 +38338,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38346,28 +38350,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38376,9 +38380,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38423,10 +38427,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38435,28 +38439,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38465,9 +38469,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38512,10 +38516,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38524,28 +38528,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38554,9 +38558,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38601,10 +38605,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38613,28 +38617,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38643,9 +38647,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38690,10 +38694,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38702,28 +38706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38732,9 +38736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38779,10 +38783,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38791,28 +38795,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38821,9 +38825,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38868,10 +38872,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38880,28 +38884,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2892, col: 8, offset: 91111},
+																						pos: position{line: 2895, col: 8, offset: 91182},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2879, col: 12, offset: 90884},
+																								pos: position{line: 2882, col: 12, offset: 90955},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2879, col: 13, offset: 90885},
+																									pos: position{line: 2882, col: 13, offset: 90956},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 13, offset: 90885},
+																											pos:        position{line: 2882, col: 13, offset: 90956},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 20, offset: 90892},
+																											pos:        position{line: 2882, col: 20, offset: 90963},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2879, col: 29, offset: 90901},
+																											pos:        position{line: 2882, col: 29, offset: 90972},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38910,9 +38914,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2889, col: 8, offset: 91061},
+																								pos: position{line: 2892, col: 8, offset: 91132},
 																								expr: &anyMatcher{
-																									line: 2889, col: 9, offset: 91062,
+																									line: 2892, col: 9, offset: 91133,
 																								},
 																							},
 																						},
@@ -38941,10 +38945,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1536, col: 31, offset: 49640},
 															expr: &actionExpr{
-																pos: position{line: 2870, col: 10, offset: 90713},
+																pos: position{line: 2873, col: 10, offset: 90784},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2870, col: 10, offset: 90713},
+																	pos:        position{line: 2873, col: 10, offset: 90784},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38953,25 +38957,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
+															pos: position{line: 2882, col: 12, offset: 90955},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39013,12 +39017,12 @@ var g = &grammar{
 																		pos:   position{line: 2480, col: 49, offset: 79725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 13, offset: 89239},
+																			pos: position{line: 2819, col: 13, offset: 89310},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2816, col: 13, offset: 89239},
+																				pos: position{line: 2819, col: 13, offset: 89310},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 13, offset: 89239},
+																					pos:        position{line: 2819, col: 13, offset: 89310},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39028,28 +39032,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39058,9 +39062,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -39078,12 +39082,12 @@ var g = &grammar{
 																		pos:   position{line: 1784, col: 5, offset: 57605},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2820, col: 14, offset: 89306},
+																			pos: position{line: 2823, col: 14, offset: 89377},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2820, col: 14, offset: 89306},
+																				pos: position{line: 2823, col: 14, offset: 89377},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 14, offset: 89306},
+																					pos:        position{line: 2823, col: 14, offset: 89377},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39097,28 +39101,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39127,9 +39131,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -39235,12 +39239,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1738, col: 13, offset: 56119},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 90774},
+																	pos: position{line: 2877, col: 11, offset: 90845},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2874, col: 11, offset: 90774},
+																		pos: position{line: 2877, col: 11, offset: 90845},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 11, offset: 90774},
+																			pos:        position{line: 2877, col: 11, offset: 90845},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39271,12 +39275,12 @@ var g = &grammar{
 											pos:   position{line: 1784, col: 5, offset: 57605},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2820, col: 14, offset: 89306},
+												pos: position{line: 2823, col: 14, offset: 89377},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2820, col: 14, offset: 89306},
+													pos: position{line: 2823, col: 14, offset: 89377},
 													expr: &charClassMatcher{
-														pos:        position{line: 2820, col: 14, offset: 89306},
+														pos:        position{line: 2823, col: 14, offset: 89377},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39290,28 +39294,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2892, col: 8, offset: 91111},
+											pos: position{line: 2895, col: 8, offset: 91182},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2879, col: 12, offset: 90884},
+													pos: position{line: 2882, col: 12, offset: 90955},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2879, col: 13, offset: 90885},
+														pos: position{line: 2882, col: 13, offset: 90956},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2879, col: 13, offset: 90885},
+																pos:        position{line: 2882, col: 13, offset: 90956},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2879, col: 20, offset: 90892},
+																pos:        position{line: 2882, col: 20, offset: 90963},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2879, col: 29, offset: 90901},
+																pos:        position{line: 2882, col: 29, offset: 90972},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39320,9 +39324,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2889, col: 8, offset: 91061},
+													pos: position{line: 2892, col: 8, offset: 91132},
 													expr: &anyMatcher{
-														line: 2889, col: 9, offset: 91062,
+														line: 2892, col: 9, offset: 91133,
 													},
 												},
 											},
@@ -39343,9 +39347,9 @@ var g = &grammar{
 										pos: position{line: 1773, col: 9, offset: 57311},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2887, col: 11, offset: 91047},
+												pos: position{line: 2890, col: 11, offset: 91118},
 												expr: &anyMatcher{
-													line: 2887, col: 13, offset: 91049,
+													line: 2890, col: 13, offset: 91120,
 												},
 											},
 											&notExpr{
@@ -39357,18 +39361,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2887, col: 11, offset: 91047},
+																pos: position{line: 2890, col: 11, offset: 91118},
 																expr: &anyMatcher{
-																	line: 2887, col: 13, offset: 91049,
+																	line: 2890, col: 13, offset: 91120,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39377,28 +39381,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2892, col: 8, offset: 91111},
+																pos: position{line: 2895, col: 8, offset: 91182},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2879, col: 12, offset: 90884},
+																		pos: position{line: 2882, col: 12, offset: 90955},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2879, col: 13, offset: 90885},
+																			pos: position{line: 2882, col: 13, offset: 90956},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 13, offset: 90885},
+																					pos:        position{line: 2882, col: 13, offset: 90956},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 20, offset: 90892},
+																					pos:        position{line: 2882, col: 20, offset: 90963},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2879, col: 29, offset: 90901},
+																					pos:        position{line: 2882, col: 29, offset: 90972},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39407,9 +39411,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2889, col: 8, offset: 91061},
+																		pos: position{line: 2892, col: 8, offset: 91132},
 																		expr: &anyMatcher{
-																			line: 2889, col: 9, offset: 91062,
+																			line: 2892, col: 9, offset: 91133,
 																		},
 																	},
 																},
@@ -39456,12 +39460,12 @@ var g = &grammar{
 																		pos:   position{line: 2480, col: 49, offset: 79725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 13, offset: 89239},
+																			pos: position{line: 2819, col: 13, offset: 89310},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2816, col: 13, offset: 89239},
+																				pos: position{line: 2819, col: 13, offset: 89310},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 13, offset: 89239},
+																					pos:        position{line: 2819, col: 13, offset: 89310},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39471,28 +39475,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39501,9 +39505,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -39521,12 +39525,12 @@ var g = &grammar{
 																		pos:   position{line: 1784, col: 5, offset: 57605},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2820, col: 14, offset: 89306},
+																			pos: position{line: 2823, col: 14, offset: 89377},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2820, col: 14, offset: 89306},
+																				pos: position{line: 2823, col: 14, offset: 89377},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 14, offset: 89306},
+																					pos:        position{line: 2823, col: 14, offset: 89377},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39540,28 +39544,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2892, col: 8, offset: 91111},
+																		pos: position{line: 2895, col: 8, offset: 91182},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39570,9 +39574,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2889, col: 8, offset: 91061},
+																				pos: position{line: 2892, col: 8, offset: 91132},
 																				expr: &anyMatcher{
-																					line: 2889, col: 9, offset: 91062,
+																					line: 2892, col: 9, offset: 91133,
 																				},
 																			},
 																		},
@@ -39785,21 +39789,21 @@ var g = &grammar{
 				pos: position{line: 1850, col: 5, offset: 59576},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2769, col: 5, offset: 87955},
+						pos: position{line: 2772, col: 5, offset: 88026},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2769, col: 5, offset: 87955},
+							pos: position{line: 2772, col: 5, offset: 88026},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2769, col: 5, offset: 87955},
+									pos:   position{line: 2772, col: 5, offset: 88026},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2769, col: 11, offset: 87961},
+										pos: position{line: 2772, col: 11, offset: 88032},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2769, col: 11, offset: 87961},
+											pos: position{line: 2772, col: 11, offset: 88032},
 											expr: &charClassMatcher{
-												pos:        position{line: 2769, col: 11, offset: 87961},
+												pos:        position{line: 2772, col: 11, offset: 88032},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39809,36 +39813,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2772, col: 5, offset: 88019},
+									pos: position{line: 2775, col: 5, offset: 88090},
 									expr: &seqExpr{
-										pos: position{line: 2773, col: 9, offset: 88030},
+										pos: position{line: 2776, col: 9, offset: 88101},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2773, col: 9, offset: 88030},
+												pos:        position{line: 2776, col: 9, offset: 88101},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2774, col: 9, offset: 88079},
+												pos: position{line: 2777, col: 9, offset: 88150},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2778, col: 5, offset: 88159},
+									pos: position{line: 2781, col: 5, offset: 88230},
 									expr: &seqExpr{
-										pos: position{line: 2779, col: 9, offset: 88170},
+										pos: position{line: 2782, col: 9, offset: 88241},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2779, col: 9, offset: 88170},
+												pos:        position{line: 2782, col: 9, offset: 88241},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2779, col: 13, offset: 88174},
+												pos:        position{line: 2782, col: 13, offset: 88245},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39851,12 +39855,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2874, col: 11, offset: 90774},
+						pos: position{line: 2877, col: 11, offset: 90845},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2874, col: 11, offset: 90774},
+							pos: position{line: 2877, col: 11, offset: 90845},
 							expr: &charClassMatcher{
-								pos:        position{line: 2874, col: 11, offset: 90774},
+								pos:        position{line: 2877, col: 11, offset: 90845},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -39874,16 +39878,20 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 2498, col: 5, offset: 80415},
 							exprs: []interface{}{
+								&andCodeExpr{
+									pos: position{line: 2498, col: 5, offset: 80415},
+									run: (*parser).callonQuotedTextElement22,
+								},
 								&litMatcher{
-									pos:        position{line: 2498, col: 5, offset: 80415},
+									pos:        position{line: 2501, col: 5, offset: 80486},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2498, col: 10, offset: 80420},
+									pos: position{line: 2501, col: 10, offset: 80491},
 									expr: &charClassMatcher{
-										pos:        position{line: 2498, col: 11, offset: 80421},
+										pos:        position{line: 2501, col: 11, offset: 80492},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39894,29 +39902,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2504, col: 5, offset: 80613},
-						run: (*parser).callonQuotedTextElement25,
+						pos: position{line: 2507, col: 5, offset: 80684},
+						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2504, col: 5, offset: 80613},
+							pos: position{line: 2507, col: 5, offset: 80684},
 							exprs: []interface{}{
-								&andCodeExpr{
-									pos: position{line: 2504, col: 5, offset: 80613},
-									run: (*parser).callonQuotedTextElement27,
-								},
 								&andCodeExpr{
 									pos: position{line: 2507, col: 5, offset: 80684},
 									run: (*parser).callonQuotedTextElement28,
 								},
+								&andCodeExpr{
+									pos: position{line: 2510, col: 5, offset: 80755},
+									run: (*parser).callonQuotedTextElement29,
+								},
 								&litMatcher{
-									pos:        position{line: 2511, col: 5, offset: 80809},
+									pos:        position{line: 2514, col: 5, offset: 80880},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2511, col: 9, offset: 80813},
+									pos: position{line: 2514, col: 9, offset: 80884},
 									expr: &charClassMatcher{
-										pos:        position{line: 2511, col: 10, offset: 80814},
+										pos:        position{line: 2514, col: 10, offset: 80885},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39927,27 +39935,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2787, col: 5, offset: 88367},
-						run: (*parser).callonQuotedTextElement32,
+						pos: position{line: 2790, col: 5, offset: 88438},
+						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2788, col: 9, offset: 88377},
+							pos: position{line: 2791, col: 9, offset: 88448},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2788, col: 10, offset: 88378},
+									pos:        position{line: 2791, col: 10, offset: 88449},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2790, col: 13, offset: 88475},
+									pos: position{line: 2793, col: 13, offset: 88546},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2790, col: 13, offset: 88475},
-											run: (*parser).callonQuotedTextElement36,
+											pos: position{line: 2793, col: 13, offset: 88546},
+											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2793, col: 13, offset: 88575},
+											pos:        position{line: 2796, col: 13, offset: 88646},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -39955,20 +39963,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2793, col: 19, offset: 88581},
+									pos:        position{line: 2796, col: 19, offset: 88652},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2796, col: 13, offset: 88619},
+									pos: position{line: 2799, col: 13, offset: 88690},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2796, col: 13, offset: 88619},
-											run: (*parser).callonQuotedTextElement40,
+											pos: position{line: 2799, col: 13, offset: 88690},
+											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2799, col: 14, offset: 88712},
+											pos:        position{line: 2802, col: 14, offset: 88783},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -39977,18 +39985,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2801, col: 12, offset: 88756},
+									pos: position{line: 2804, col: 12, offset: 88827},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2801, col: 12, offset: 88756},
+											pos:        position{line: 2804, col: 12, offset: 88827},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2801, col: 16, offset: 88760},
+											pos: position{line: 2804, col: 16, offset: 88831},
 											expr: &litMatcher{
-												pos:        position{line: 2801, col: 17, offset: 88761},
+												pos:        position{line: 2804, col: 17, offset: 88832},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40001,13 +40009,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 636, col: 5, offset: 20109},
-						run: (*parser).callonQuotedTextElement46,
+						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
 							pos: position{line: 636, col: 5, offset: 20109},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 636, col: 5, offset: 20109},
-									run: (*parser).callonQuotedTextElement48,
+									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
 									pos:   position{line: 639, col: 5, offset: 20181},
@@ -40017,7 +40025,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 645, col: 5, offset: 20319},
-												run: (*parser).callonQuotedTextElement51,
+												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
 													pos: position{line: 645, col: 5, offset: 20319},
 													exprs: []interface{}{
@@ -40032,7 +40040,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement55,
+																run: (*parser).callonQuotedTextElement56,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -40070,7 +40078,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 652, col: 5, offset: 20587},
-												run: (*parser).callonQuotedTextElement61,
+												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
 													pos: position{line: 652, col: 5, offset: 20587},
 													exprs: []interface{}{
@@ -40085,7 +40093,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement65,
+																run: (*parser).callonQuotedTextElement66,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -40123,7 +40131,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 658, col: 25, offset: 20791},
-												run: (*parser).callonQuotedTextElement71,
+												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
 													pos: position{line: 658, col: 25, offset: 20791},
 													exprs: []interface{}{
@@ -40138,7 +40146,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement75,
+																run: (*parser).callonQuotedTextElement76,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -40172,7 +40180,7 @@ var g = &grammar{
 																pos: position{line: 658, col: 62, offset: 20828},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21123},
-																	run: (*parser).callonQuotedTextElement82,
+																	run: (*parser).callonQuotedTextElement83,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21123},
 																		exprs: []interface{}{
@@ -40190,7 +40198,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21134},
-																							run: (*parser).callonQuotedTextElement87,
+																							run: (*parser).callonQuotedTextElement88,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21134},
 																								val:        "[A-Za-z]",
@@ -40201,7 +40209,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21188},
-																							run: (*parser).callonQuotedTextElement89,
+																							run: (*parser).callonQuotedTextElement90,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21188},
 																								expr: &charClassMatcher{
@@ -40232,7 +40240,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 662, col: 25, offset: 20962},
-												run: (*parser).callonQuotedTextElement93,
+												run: (*parser).callonQuotedTextElement94,
 												expr: &seqExpr{
 													pos: position{line: 662, col: 25, offset: 20962},
 													exprs: []interface{}{
@@ -40247,7 +40255,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement97,
+																run: (*parser).callonQuotedTextElement98,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -40281,7 +40289,7 @@ var g = &grammar{
 																pos: position{line: 662, col: 63, offset: 21000},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21123},
-																	run: (*parser).callonQuotedTextElement104,
+																	run: (*parser).callonQuotedTextElement105,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21123},
 																		exprs: []interface{}{
@@ -40299,7 +40307,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21134},
-																							run: (*parser).callonQuotedTextElement109,
+																							run: (*parser).callonQuotedTextElement110,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21134},
 																								val:        "[A-Za-z]",
@@ -40310,7 +40318,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21188},
-																							run: (*parser).callonQuotedTextElement111,
+																							run: (*parser).callonQuotedTextElement112,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21188},
 																								expr: &charClassMatcher{
@@ -40346,31 +40354,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2883, col: 18, offset: 90984},
-						run: (*parser).callonQuotedTextElement115,
+						pos: position{line: 2886, col: 18, offset: 91055},
+						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2883, col: 18, offset: 90984},
+							pos: position{line: 2886, col: 18, offset: 91055},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
-									run: (*parser).callonQuotedTextElement117,
+									pos: position{line: 2882, col: 12, offset: 90955},
+									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40379,27 +40387,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 26, offset: 90992},
+									pos: position{line: 2886, col: 26, offset: 91063},
 									expr: &actionExpr{
-										pos: position{line: 2879, col: 12, offset: 90884},
-										run: (*parser).callonQuotedTextElement123,
+										pos: position{line: 2882, col: 12, offset: 90955},
+										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2879, col: 13, offset: 90885},
+											pos: position{line: 2882, col: 13, offset: 90956},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2879, col: 13, offset: 90885},
+													pos:        position{line: 2882, col: 13, offset: 90956},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 20, offset: 90892},
+													pos:        position{line: 2882, col: 20, offset: 90963},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 29, offset: 90901},
+													pos:        position{line: 2882, col: 29, offset: 90972},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40421,20 +40429,20 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2467, col: 5, offset: 79244},
-						run: (*parser).callonQuotedTextElement130,
+						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
 							pos: position{line: 2467, col: 5, offset: 79244},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2467, col: 5, offset: 79244},
-									run: (*parser).callonQuotedTextElement132,
+									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
 									pos:   position{line: 2470, col: 5, offset: 79320},
 									label: "element",
 									expr: &actionExpr{
 										pos: position{line: 2471, col: 9, offset: 79338},
-										run: (*parser).callonQuotedTextElement134,
+										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
 											pos:        position{line: 2471, col: 10, offset: 79339},
 											val:        "[<>&]",
@@ -40449,7 +40457,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1198, col: 23, offset: 36972},
-						run: (*parser).callonQuotedTextElement136,
+						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
 							pos: position{line: 1198, col: 23, offset: 36972},
 							exprs: []interface{}{
@@ -40464,7 +40472,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1198, col: 56, offset: 37005},
-										run: (*parser).callonQuotedTextElement140,
+										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1198, col: 56, offset: 37005},
 											expr: &charClassMatcher{
@@ -40487,10 +40495,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2809, col: 12, offset: 89021},
-						run: (*parser).callonQuotedTextElement144,
+						pos: position{line: 2812, col: 12, offset: 89092},
+						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2809, col: 12, offset: 89021},
+							pos:        position{line: 2812, col: 12, offset: 89092},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40554,9 +40562,9 @@ var g = &grammar{
 					pos: position{line: 1886, col: 5, offset: 60657},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -40643,7 +40651,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1911, col: 7, offset: 61382},
 								expr: &charClassMatcher{
-									pos:        position{line: 2760, col: 13, offset: 87808},
+									pos:        position{line: 2763, col: 13, offset: 87879},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40667,10 +40675,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1921, col: 5, offset: 61667},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40707,9 +40715,9 @@ var g = &grammar{
 					pos: position{line: 1930, col: 5, offset: 61926},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -40741,7 +40749,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1911, col: 7, offset: 61382},
 											expr: &charClassMatcher{
-												pos:        position{line: 2760, col: 13, offset: 87808},
+												pos:        position{line: 2763, col: 13, offset: 87879},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40976,9 +40984,9 @@ var g = &grammar{
 					pos: position{line: 1975, col: 5, offset: 63579},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -41065,7 +41073,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2001, col: 7, offset: 64310},
 								expr: &charClassMatcher{
-									pos:        position{line: 2760, col: 13, offset: 87808},
+									pos:        position{line: 2763, col: 13, offset: 87879},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41089,10 +41097,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2011, col: 5, offset: 64607},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41129,9 +41137,9 @@ var g = &grammar{
 					pos: position{line: 2020, col: 5, offset: 64869},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -41163,7 +41171,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2001, col: 7, offset: 64310},
 											expr: &charClassMatcher{
-												pos:        position{line: 2760, col: 13, offset: 87808},
+												pos:        position{line: 2763, col: 13, offset: 87879},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41398,9 +41406,9 @@ var g = &grammar{
 					pos: position{line: 2065, col: 5, offset: 66698},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -41452,7 +41460,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2092, col: 7, offset: 67491},
 							expr: &charClassMatcher{
-								pos:        position{line: 2760, col: 13, offset: 87808},
+								pos:        position{line: 2763, col: 13, offset: 87879},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41522,10 +41530,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2103, col: 5, offset: 67812},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41562,9 +41570,9 @@ var g = &grammar{
 					pos: position{line: 2112, col: 5, offset: 68080},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -41798,9 +41806,9 @@ var g = &grammar{
 					pos: position{line: 2157, col: 5, offset: 69792},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -41887,7 +41895,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2182, col: 7, offset: 70521},
 								expr: &charClassMatcher{
-									pos:        position{line: 2760, col: 13, offset: 87808},
+									pos:        position{line: 2763, col: 13, offset: 87879},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41911,10 +41919,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2192, col: 5, offset: 70818},
 							expr: &actionExpr{
-								pos: position{line: 2870, col: 10, offset: 90713},
+								pos: position{line: 2873, col: 10, offset: 90784},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 10, offset: 90713},
+									pos:        position{line: 2873, col: 10, offset: 90784},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41951,9 +41959,9 @@ var g = &grammar{
 					pos: position{line: 2201, col: 5, offset: 71081},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&notExpr{
@@ -41985,7 +41993,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2182, col: 7, offset: 70521},
 											expr: &charClassMatcher{
-												pos:        position{line: 2760, col: 13, offset: 87808},
+												pos:        position{line: 2763, col: 13, offset: 87879},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42531,12 +42539,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2874, col: 11, offset: 90774},
+							pos: position{line: 2877, col: 11, offset: 90845},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2874, col: 11, offset: 90774},
+								pos: position{line: 2877, col: 11, offset: 90845},
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 11, offset: 90774},
+									pos:        position{line: 2877, col: 11, offset: 90845},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42553,28 +42561,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42583,9 +42591,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -42634,28 +42642,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2326, col: 5, offset: 75207},
 							expr: &choiceExpr{
-								pos: position{line: 2892, col: 8, offset: 91111},
+								pos: position{line: 2895, col: 8, offset: 91182},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2879, col: 12, offset: 90884},
+										pos: position{line: 2882, col: 12, offset: 90955},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2879, col: 13, offset: 90885},
+											pos: position{line: 2882, col: 13, offset: 90956},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2879, col: 13, offset: 90885},
+													pos:        position{line: 2882, col: 13, offset: 90956},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 20, offset: 90892},
+													pos:        position{line: 2882, col: 20, offset: 90963},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 29, offset: 90901},
+													pos:        position{line: 2882, col: 29, offset: 90972},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42664,9 +42672,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2889, col: 8, offset: 91061},
+										pos: position{line: 2892, col: 8, offset: 91132},
 										expr: &anyMatcher{
-											line: 2889, col: 9, offset: 91062,
+											line: 2892, col: 9, offset: 91133,
 										},
 									},
 								},
@@ -42679,21 +42687,21 @@ var g = &grammar{
 								pos: position{line: 2328, col: 9, offset: 75234},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87955},
+										pos: position{line: 2772, col: 5, offset: 88026},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2769, col: 5, offset: 87955},
+											pos: position{line: 2772, col: 5, offset: 88026},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2769, col: 5, offset: 87955},
+													pos:   position{line: 2772, col: 5, offset: 88026},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2769, col: 11, offset: 87961},
+														pos: position{line: 2772, col: 11, offset: 88032},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2769, col: 11, offset: 87961},
+															pos: position{line: 2772, col: 11, offset: 88032},
 															expr: &charClassMatcher{
-																pos:        position{line: 2769, col: 11, offset: 87961},
+																pos:        position{line: 2772, col: 11, offset: 88032},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42703,36 +42711,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88019},
+													pos: position{line: 2775, col: 5, offset: 88090},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88030},
+														pos: position{line: 2776, col: 9, offset: 88101},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88030},
+																pos:        position{line: 2776, col: 9, offset: 88101},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2774, col: 9, offset: 88079},
+																pos: position{line: 2777, col: 9, offset: 88150},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88159},
+													pos: position{line: 2781, col: 5, offset: 88230},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88170},
+														pos: position{line: 2782, col: 9, offset: 88241},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88170},
+																pos:        position{line: 2782, col: 9, offset: 88241},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2779, col: 13, offset: 88174},
+																pos:        position{line: 2782, col: 13, offset: 88245},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42745,12 +42753,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 11, offset: 90774},
+										pos: position{line: 2877, col: 11, offset: 90845},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2874, col: 11, offset: 90774},
+											pos: position{line: 2877, col: 11, offset: 90845},
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 11, offset: 90774},
+												pos:        position{line: 2877, col: 11, offset: 90845},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42764,16 +42772,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2498, col: 5, offset: 80415},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2498, col: 5, offset: 80415},
+													run: (*parser).callonSectionTitleElement33,
+												},
 												&litMatcher{
-													pos:        position{line: 2498, col: 5, offset: 80415},
+													pos:        position{line: 2501, col: 5, offset: 80486},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2498, col: 10, offset: 80420},
+													pos: position{line: 2501, col: 10, offset: 80491},
 													expr: &charClassMatcher{
-														pos:        position{line: 2498, col: 11, offset: 80421},
+														pos:        position{line: 2501, col: 11, offset: 80492},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42784,29 +42796,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2504, col: 5, offset: 80613},
-										run: (*parser).callonSectionTitleElement36,
+										pos: position{line: 2507, col: 5, offset: 80684},
+										run: (*parser).callonSectionTitleElement37,
 										expr: &seqExpr{
-											pos: position{line: 2504, col: 5, offset: 80613},
+											pos: position{line: 2507, col: 5, offset: 80684},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2504, col: 5, offset: 80613},
-													run: (*parser).callonSectionTitleElement38,
-												},
 												&andCodeExpr{
 													pos: position{line: 2507, col: 5, offset: 80684},
 													run: (*parser).callonSectionTitleElement39,
 												},
+												&andCodeExpr{
+													pos: position{line: 2510, col: 5, offset: 80755},
+													run: (*parser).callonSectionTitleElement40,
+												},
 												&litMatcher{
-													pos:        position{line: 2511, col: 5, offset: 80809},
+													pos:        position{line: 2514, col: 5, offset: 80880},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2511, col: 9, offset: 80813},
+													pos: position{line: 2514, col: 9, offset: 80884},
 													expr: &charClassMatcher{
-														pos:        position{line: 2511, col: 10, offset: 80814},
+														pos:        position{line: 2514, col: 10, offset: 80885},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42821,27 +42833,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2787, col: 5, offset: 88367},
-										run: (*parser).callonSectionTitleElement44,
+										pos: position{line: 2790, col: 5, offset: 88438},
+										run: (*parser).callonSectionTitleElement45,
 										expr: &choiceExpr{
-											pos: position{line: 2788, col: 9, offset: 88377},
+											pos: position{line: 2791, col: 9, offset: 88448},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2788, col: 10, offset: 88378},
+													pos:        position{line: 2791, col: 10, offset: 88449},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88475},
+													pos: position{line: 2793, col: 13, offset: 88546},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88475},
-															run: (*parser).callonSectionTitleElement48,
+															pos: position{line: 2793, col: 13, offset: 88546},
+															run: (*parser).callonSectionTitleElement49,
 														},
 														&litMatcher{
-															pos:        position{line: 2793, col: 13, offset: 88575},
+															pos:        position{line: 2796, col: 13, offset: 88646},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42849,20 +42861,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2793, col: 19, offset: 88581},
+													pos:        position{line: 2796, col: 19, offset: 88652},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88619},
+													pos: position{line: 2799, col: 13, offset: 88690},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88619},
-															run: (*parser).callonSectionTitleElement52,
+															pos: position{line: 2799, col: 13, offset: 88690},
+															run: (*parser).callonSectionTitleElement53,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2799, col: 14, offset: 88712},
+															pos:        position{line: 2802, col: 14, offset: 88783},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42871,18 +42883,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 12, offset: 88756},
+													pos: position{line: 2804, col: 12, offset: 88827},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2801, col: 12, offset: 88756},
+															pos:        position{line: 2804, col: 12, offset: 88827},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2801, col: 16, offset: 88760},
+															pos: position{line: 2804, col: 16, offset: 88831},
 															expr: &litMatcher{
-																pos:        position{line: 2801, col: 17, offset: 88761},
+																pos:        position{line: 2804, col: 17, offset: 88832},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -42907,20 +42919,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2467, col: 5, offset: 79244},
-										run: (*parser).callonSectionTitleElement61,
+										run: (*parser).callonSectionTitleElement62,
 										expr: &seqExpr{
 											pos: position{line: 2467, col: 5, offset: 79244},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2467, col: 5, offset: 79244},
-													run: (*parser).callonSectionTitleElement63,
+													run: (*parser).callonSectionTitleElement64,
 												},
 												&labeledExpr{
 													pos:   position{line: 2470, col: 5, offset: 79320},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2471, col: 9, offset: 79338},
-														run: (*parser).callonSectionTitleElement65,
+														run: (*parser).callonSectionTitleElement66,
 														expr: &charClassMatcher{
 															pos:        position{line: 2471, col: 10, offset: 79339},
 															val:        "[<>&]",
@@ -42939,13 +42951,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20109},
-										run: (*parser).callonSectionTitleElement68,
+										run: (*parser).callonSectionTitleElement69,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20109},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20109},
-													run: (*parser).callonSectionTitleElement70,
+													run: (*parser).callonSectionTitleElement71,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20181},
@@ -42955,7 +42967,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20319},
-																run: (*parser).callonSectionTitleElement73,
+																run: (*parser).callonSectionTitleElement74,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20319},
 																	exprs: []interface{}{
@@ -42970,7 +42982,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement77,
+																				run: (*parser).callonSectionTitleElement78,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -43008,7 +43020,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20587},
-																run: (*parser).callonSectionTitleElement83,
+																run: (*parser).callonSectionTitleElement84,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20587},
 																	exprs: []interface{}{
@@ -43023,7 +43035,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement87,
+																				run: (*parser).callonSectionTitleElement88,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -43061,7 +43073,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20791},
-																run: (*parser).callonSectionTitleElement93,
+																run: (*parser).callonSectionTitleElement94,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20791},
 																	exprs: []interface{}{
@@ -43076,7 +43088,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement97,
+																				run: (*parser).callonSectionTitleElement98,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -43110,7 +43122,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20828},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21123},
-																					run: (*parser).callonSectionTitleElement104,
+																					run: (*parser).callonSectionTitleElement105,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21123},
 																						exprs: []interface{}{
@@ -43128,7 +43140,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21134},
-																											run: (*parser).callonSectionTitleElement109,
+																											run: (*parser).callonSectionTitleElement110,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21134},
 																												val:        "[A-Za-z]",
@@ -43139,7 +43151,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21188},
-																											run: (*parser).callonSectionTitleElement111,
+																											run: (*parser).callonSectionTitleElement112,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21188},
 																												expr: &charClassMatcher{
@@ -43170,7 +43182,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 20962},
-																run: (*parser).callonSectionTitleElement115,
+																run: (*parser).callonSectionTitleElement116,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 20962},
 																	exprs: []interface{}{
@@ -43185,7 +43197,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement119,
+																				run: (*parser).callonSectionTitleElement120,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -43219,7 +43231,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21000},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21123},
-																					run: (*parser).callonSectionTitleElement126,
+																					run: (*parser).callonSectionTitleElement127,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21123},
 																						exprs: []interface{}{
@@ -43237,7 +43249,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21134},
-																											run: (*parser).callonSectionTitleElement131,
+																											run: (*parser).callonSectionTitleElement132,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21134},
 																												val:        "[A-Za-z]",
@@ -43248,7 +43260,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21188},
-																											run: (*parser).callonSectionTitleElement133,
+																											run: (*parser).callonSectionTitleElement134,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21188},
 																												expr: &charClassMatcher{
@@ -43285,7 +43297,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1198, col: 23, offset: 36972},
-										run: (*parser).callonSectionTitleElement137,
+										run: (*parser).callonSectionTitleElement138,
 										expr: &seqExpr{
 											pos: position{line: 1198, col: 23, offset: 36972},
 											exprs: []interface{}{
@@ -43300,7 +43312,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1198, col: 56, offset: 37005},
-														run: (*parser).callonSectionTitleElement141,
+														run: (*parser).callonSectionTitleElement142,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1198, col: 56, offset: 37005},
 															expr: &charClassMatcher{
@@ -43324,20 +43336,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2350, col: 5, offset: 75954},
-										run: (*parser).callonSectionTitleElement145,
+										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
 											pos: position{line: 2350, col: 5, offset: 75954},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2350, col: 5, offset: 75954},
-													run: (*parser).callonSectionTitleElement147,
+													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
 													pos:   position{line: 2353, col: 5, offset: 76009},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
-														run: (*parser).callonSectionTitleElement149,
+														run: (*parser).callonSectionTitleElement150,
 														expr: &seqExpr{
 															pos: position{line: 404, col: 5, offset: 12337},
 															exprs: []interface{}{
@@ -43352,7 +43364,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 406, col: 9, offset: 12360},
-																		run: (*parser).callonSectionTitleElement153,
+																		run: (*parser).callonSectionTitleElement154,
 																		expr: &labeledExpr{
 																			pos:   position{line: 406, col: 9, offset: 12360},
 																			label: "elements",
@@ -43363,7 +43375,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 407, col: 14, offset: 12384},
-																							run: (*parser).callonSectionTitleElement157,
+																							run: (*parser).callonSectionTitleElement158,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 407, col: 14, offset: 12384},
 																								expr: &charClassMatcher{
@@ -43377,7 +43389,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1198, col: 23, offset: 36972},
-																							run: (*parser).callonSectionTitleElement160,
+																							run: (*parser).callonSectionTitleElement161,
 																							expr: &seqExpr{
 																								pos: position{line: 1198, col: 23, offset: 36972},
 																								exprs: []interface{}{
@@ -43392,7 +43404,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1198, col: 56, offset: 37005},
-																											run: (*parser).callonSectionTitleElement164,
+																											run: (*parser).callonSectionTitleElement165,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1198, col: 56, offset: 37005},
 																												expr: &charClassMatcher{
@@ -43416,13 +43428,13 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 636, col: 5, offset: 20109},
-																							run: (*parser).callonSectionTitleElement168,
+																							run: (*parser).callonSectionTitleElement169,
 																							expr: &seqExpr{
 																								pos: position{line: 636, col: 5, offset: 20109},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 636, col: 5, offset: 20109},
-																										run: (*parser).callonSectionTitleElement170,
+																										run: (*parser).callonSectionTitleElement171,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 639, col: 5, offset: 20181},
@@ -43432,7 +43444,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 645, col: 5, offset: 20319},
-																													run: (*parser).callonSectionTitleElement173,
+																													run: (*parser).callonSectionTitleElement174,
 																													expr: &seqExpr{
 																														pos: position{line: 645, col: 5, offset: 20319},
 																														exprs: []interface{}{
@@ -43447,7 +43459,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement177,
+																																	run: (*parser).callonSectionTitleElement178,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9736},
 																																		exprs: []interface{}{
@@ -43485,7 +43497,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 652, col: 5, offset: 20587},
-																													run: (*parser).callonSectionTitleElement183,
+																													run: (*parser).callonSectionTitleElement184,
 																													expr: &seqExpr{
 																														pos: position{line: 652, col: 5, offset: 20587},
 																														exprs: []interface{}{
@@ -43500,7 +43512,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement187,
+																																	run: (*parser).callonSectionTitleElement188,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9736},
 																																		exprs: []interface{}{
@@ -43538,7 +43550,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 658, col: 25, offset: 20791},
-																													run: (*parser).callonSectionTitleElement193,
+																													run: (*parser).callonSectionTitleElement194,
 																													expr: &seqExpr{
 																														pos: position{line: 658, col: 25, offset: 20791},
 																														exprs: []interface{}{
@@ -43553,7 +43565,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement197,
+																																	run: (*parser).callonSectionTitleElement198,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9736},
 																																		exprs: []interface{}{
@@ -43587,7 +43599,7 @@ var g = &grammar{
 																																	pos: position{line: 658, col: 62, offset: 20828},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21123},
-																																		run: (*parser).callonSectionTitleElement204,
+																																		run: (*parser).callonSectionTitleElement205,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21123},
 																																			exprs: []interface{}{
@@ -43605,7 +43617,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21134},
-																																								run: (*parser).callonSectionTitleElement209,
+																																								run: (*parser).callonSectionTitleElement210,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21134},
 																																									val:        "[A-Za-z]",
@@ -43616,7 +43628,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21188},
-																																								run: (*parser).callonSectionTitleElement211,
+																																								run: (*parser).callonSectionTitleElement212,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21188},
 																																									expr: &charClassMatcher{
@@ -43647,7 +43659,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 662, col: 25, offset: 20962},
-																													run: (*parser).callonSectionTitleElement215,
+																													run: (*parser).callonSectionTitleElement216,
 																													expr: &seqExpr{
 																														pos: position{line: 662, col: 25, offset: 20962},
 																														exprs: []interface{}{
@@ -43662,7 +43674,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement219,
+																																	run: (*parser).callonSectionTitleElement220,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9736},
 																																		exprs: []interface{}{
@@ -43696,7 +43708,7 @@ var g = &grammar{
 																																	pos: position{line: 662, col: 63, offset: 21000},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21123},
-																																		run: (*parser).callonSectionTitleElement226,
+																																		run: (*parser).callonSectionTitleElement227,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21123},
 																																			exprs: []interface{}{
@@ -43714,7 +43726,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21134},
-																																								run: (*parser).callonSectionTitleElement231,
+																																								run: (*parser).callonSectionTitleElement232,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21134},
 																																									val:        "[A-Za-z]",
@@ -43725,7 +43737,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21188},
-																																								run: (*parser).callonSectionTitleElement233,
+																																								run: (*parser).callonSectionTitleElement234,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21188},
 																																									expr: &charClassMatcher{
@@ -43762,7 +43774,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 412, col: 16, offset: 12617},
-																							run: (*parser).callonSectionTitleElement237,
+																							run: (*parser).callonSectionTitleElement238,
 																							expr: &litMatcher{
 																								pos:        position{line: 412, col: 16, offset: 12617},
 																								val:        "{",
@@ -43789,10 +43801,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2353, col: 26, offset: 76030},
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 10, offset: 90713},
-														run: (*parser).callonSectionTitleElement241,
+														pos: position{line: 2873, col: 10, offset: 90784},
+														run: (*parser).callonSectionTitleElement242,
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 10, offset: 90713},
+															pos:        position{line: 2873, col: 10, offset: 90784},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43803,28 +43815,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2353, col: 33, offset: 76037},
 													expr: &choiceExpr{
-														pos: position{line: 2892, col: 8, offset: 91111},
+														pos: position{line: 2895, col: 8, offset: 91182},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2879, col: 12, offset: 90884},
-																run: (*parser).callonSectionTitleElement245,
+																pos: position{line: 2882, col: 12, offset: 90955},
+																run: (*parser).callonSectionTitleElement246,
 																expr: &choiceExpr{
-																	pos: position{line: 2879, col: 13, offset: 90885},
+																	pos: position{line: 2882, col: 13, offset: 90956},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 13, offset: 90885},
+																			pos:        position{line: 2882, col: 13, offset: 90956},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 20, offset: 90892},
+																			pos:        position{line: 2882, col: 20, offset: 90963},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2879, col: 29, offset: 90901},
+																			pos:        position{line: 2882, col: 29, offset: 90972},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43833,9 +43845,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2889, col: 8, offset: 91061},
+																pos: position{line: 2892, col: 8, offset: 91132},
 																expr: &anyMatcher{
-																	line: 2889, col: 9, offset: 91062,
+																	line: 2892, col: 9, offset: 91133,
 																},
 															},
 														},
@@ -43846,7 +43858,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1253, col: 5, offset: 38732},
-										run: (*parser).callonSectionTitleElement252,
+										run: (*parser).callonSectionTitleElement253,
 										expr: &seqExpr{
 											pos: position{line: 1253, col: 5, offset: 38732},
 											exprs: []interface{}{
@@ -43860,12 +43872,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 7, offset: 90365},
-														run: (*parser).callonSectionTitleElement256,
+														pos: position{line: 2858, col: 7, offset: 90436},
+														run: (*parser).callonSectionTitleElement257,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2855, col: 7, offset: 90365},
+															pos: position{line: 2858, col: 7, offset: 90436},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 7, offset: 90365},
+																pos:        position{line: 2858, col: 7, offset: 90436},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43885,7 +43897,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1258, col: 5, offset: 38868},
-										run: (*parser).callonSectionTitleElement260,
+										run: (*parser).callonSectionTitleElement261,
 										expr: &seqExpr{
 											pos: position{line: 1258, col: 5, offset: 38868},
 											exprs: []interface{}{
@@ -43899,12 +43911,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 7, offset: 90365},
-														run: (*parser).callonSectionTitleElement264,
+														pos: position{line: 2858, col: 7, offset: 90436},
+														run: (*parser).callonSectionTitleElement265,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2855, col: 7, offset: 90365},
+															pos: position{line: 2858, col: 7, offset: 90436},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 7, offset: 90365},
+																pos:        position{line: 2858, col: 7, offset: 90436},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43927,10 +43939,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2809, col: 12, offset: 89021},
-										run: (*parser).callonSectionTitleElement269,
+										pos: position{line: 2812, col: 12, offset: 89092},
+										run: (*parser).callonSectionTitleElement270,
 										expr: &charClassMatcher{
-											pos:        position{line: 2809, col: 12, offset: 89021},
+											pos:        position{line: 2812, col: 12, offset: 89092},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43965,9 +43977,9 @@ var g = &grammar{
 										pos: position{line: 2366, col: 9, offset: 76421},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2887, col: 11, offset: 91047},
+												pos: position{line: 2890, col: 11, offset: 91118},
 												expr: &anyMatcher{
-													line: 2887, col: 13, offset: 91049,
+													line: 2890, col: 13, offset: 91120,
 												},
 											},
 											&labeledExpr{
@@ -43977,21 +43989,21 @@ var g = &grammar{
 													pos: position{line: 2368, col: 13, offset: 76458},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2769, col: 5, offset: 87955},
+															pos: position{line: 2772, col: 5, offset: 88026},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2769, col: 5, offset: 87955},
+																pos: position{line: 2772, col: 5, offset: 88026},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2769, col: 5, offset: 87955},
+																		pos:   position{line: 2772, col: 5, offset: 88026},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2769, col: 11, offset: 87961},
+																			pos: position{line: 2772, col: 11, offset: 88032},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2769, col: 11, offset: 87961},
+																				pos: position{line: 2772, col: 11, offset: 88032},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2769, col: 11, offset: 87961},
+																					pos:        position{line: 2772, col: 11, offset: 88032},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44001,36 +44013,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2772, col: 5, offset: 88019},
+																		pos: position{line: 2775, col: 5, offset: 88090},
 																		expr: &seqExpr{
-																			pos: position{line: 2773, col: 9, offset: 88030},
+																			pos: position{line: 2776, col: 9, offset: 88101},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2773, col: 9, offset: 88030},
+																					pos:        position{line: 2776, col: 9, offset: 88101},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2774, col: 9, offset: 88079},
+																					pos: position{line: 2777, col: 9, offset: 88150},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2778, col: 5, offset: 88159},
+																		pos: position{line: 2781, col: 5, offset: 88230},
 																		expr: &seqExpr{
-																			pos: position{line: 2779, col: 9, offset: 88170},
+																			pos: position{line: 2782, col: 9, offset: 88241},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2779, col: 9, offset: 88170},
+																					pos:        position{line: 2782, col: 9, offset: 88241},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2779, col: 13, offset: 88174},
+																					pos:        position{line: 2782, col: 13, offset: 88245},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44043,12 +44055,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2874, col: 11, offset: 90774},
+															pos: position{line: 2877, col: 11, offset: 90845},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 11, offset: 90774},
+																pos: position{line: 2877, col: 11, offset: 90845},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 11, offset: 90774},
+																	pos:        position{line: 2877, col: 11, offset: 90845},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44066,16 +44078,20 @@ var g = &grammar{
 															expr: &seqExpr{
 																pos: position{line: 2498, col: 5, offset: 80415},
 																exprs: []interface{}{
+																	&andCodeExpr{
+																		pos: position{line: 2498, col: 5, offset: 80415},
+																		run: (*parser).callonNormalGroup31,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2498, col: 5, offset: 80415},
+																		pos:        position{line: 2501, col: 5, offset: 80486},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2498, col: 10, offset: 80420},
+																		pos: position{line: 2501, col: 10, offset: 80491},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2498, col: 11, offset: 80421},
+																			pos:        position{line: 2501, col: 11, offset: 80492},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44086,29 +44102,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2504, col: 5, offset: 80613},
-															run: (*parser).callonNormalGroup34,
+															pos: position{line: 2507, col: 5, offset: 80684},
+															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2504, col: 5, offset: 80613},
+																pos: position{line: 2507, col: 5, offset: 80684},
 																exprs: []interface{}{
-																	&andCodeExpr{
-																		pos: position{line: 2504, col: 5, offset: 80613},
-																		run: (*parser).callonNormalGroup36,
-																	},
 																	&andCodeExpr{
 																		pos: position{line: 2507, col: 5, offset: 80684},
 																		run: (*parser).callonNormalGroup37,
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 2510, col: 5, offset: 80755},
+																		run: (*parser).callonNormalGroup38,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2511, col: 5, offset: 80809},
+																		pos:        position{line: 2514, col: 5, offset: 80880},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2511, col: 9, offset: 80813},
+																		pos: position{line: 2514, col: 9, offset: 80884},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2511, col: 10, offset: 80814},
+																			pos:        position{line: 2514, col: 10, offset: 80885},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44119,27 +44135,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2787, col: 5, offset: 88367},
-															run: (*parser).callonNormalGroup41,
+															pos: position{line: 2790, col: 5, offset: 88438},
+															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2788, col: 9, offset: 88377},
+																pos: position{line: 2791, col: 9, offset: 88448},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2788, col: 10, offset: 88378},
+																		pos:        position{line: 2791, col: 10, offset: 88449},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2790, col: 13, offset: 88475},
+																		pos: position{line: 2793, col: 13, offset: 88546},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2790, col: 13, offset: 88475},
-																				run: (*parser).callonNormalGroup45,
+																				pos: position{line: 2793, col: 13, offset: 88546},
+																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2793, col: 13, offset: 88575},
+																				pos:        position{line: 2796, col: 13, offset: 88646},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44147,20 +44163,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2793, col: 19, offset: 88581},
+																		pos:        position{line: 2796, col: 19, offset: 88652},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2796, col: 13, offset: 88619},
+																		pos: position{line: 2799, col: 13, offset: 88690},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2796, col: 13, offset: 88619},
-																				run: (*parser).callonNormalGroup49,
+																				pos: position{line: 2799, col: 13, offset: 88690},
+																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2799, col: 14, offset: 88712},
+																				pos:        position{line: 2802, col: 14, offset: 88783},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44169,18 +44185,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2801, col: 12, offset: 88756},
+																		pos: position{line: 2804, col: 12, offset: 88827},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2801, col: 12, offset: 88756},
+																				pos:        position{line: 2804, col: 12, offset: 88827},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2801, col: 16, offset: 88760},
+																				pos: position{line: 2804, col: 16, offset: 88831},
 																				expr: &litMatcher{
-																					pos:        position{line: 2801, col: 17, offset: 88761},
+																					pos:        position{line: 2804, col: 17, offset: 88832},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44192,25 +44208,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2879, col: 12, offset: 90884},
-															run: (*parser).callonNormalGroup55,
+															pos: position{line: 2882, col: 12, offset: 90955},
+															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2879, col: 13, offset: 90885},
+																pos: position{line: 2882, col: 13, offset: 90956},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 13, offset: 90885},
+																		pos:        position{line: 2882, col: 13, offset: 90956},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 20, offset: 90892},
+																		pos:        position{line: 2882, col: 20, offset: 90963},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2879, col: 29, offset: 90901},
+																		pos:        position{line: 2882, col: 29, offset: 90972},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44220,13 +44236,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 636, col: 5, offset: 20109},
-															run: (*parser).callonNormalGroup60,
+															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
 																pos: position{line: 636, col: 5, offset: 20109},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 636, col: 5, offset: 20109},
-																		run: (*parser).callonNormalGroup62,
+																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 639, col: 5, offset: 20181},
@@ -44236,7 +44252,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 645, col: 5, offset: 20319},
-																					run: (*parser).callonNormalGroup65,
+																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
 																						pos: position{line: 645, col: 5, offset: 20319},
 																						exprs: []interface{}{
@@ -44251,7 +44267,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup69,
+																									run: (*parser).callonNormalGroup70,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -44289,7 +44305,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 652, col: 5, offset: 20587},
-																					run: (*parser).callonNormalGroup75,
+																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
 																						pos: position{line: 652, col: 5, offset: 20587},
 																						exprs: []interface{}{
@@ -44304,7 +44320,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup79,
+																									run: (*parser).callonNormalGroup80,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -44342,7 +44358,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 658, col: 25, offset: 20791},
-																					run: (*parser).callonNormalGroup85,
+																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
 																						pos: position{line: 658, col: 25, offset: 20791},
 																						exprs: []interface{}{
@@ -44357,7 +44373,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup89,
+																									run: (*parser).callonNormalGroup90,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -44391,7 +44407,7 @@ var g = &grammar{
 																									pos: position{line: 658, col: 62, offset: 20828},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21123},
-																										run: (*parser).callonNormalGroup96,
+																										run: (*parser).callonNormalGroup97,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21123},
 																											exprs: []interface{}{
@@ -44409,7 +44425,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21134},
-																																run: (*parser).callonNormalGroup101,
+																																run: (*parser).callonNormalGroup102,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21134},
 																																	val:        "[A-Za-z]",
@@ -44420,7 +44436,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21188},
-																																run: (*parser).callonNormalGroup103,
+																																run: (*parser).callonNormalGroup104,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21188},
 																																	expr: &charClassMatcher{
@@ -44451,7 +44467,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 662, col: 25, offset: 20962},
-																					run: (*parser).callonNormalGroup107,
+																					run: (*parser).callonNormalGroup108,
 																					expr: &seqExpr{
 																						pos: position{line: 662, col: 25, offset: 20962},
 																						exprs: []interface{}{
@@ -44466,7 +44482,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup111,
+																									run: (*parser).callonNormalGroup112,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -44500,7 +44516,7 @@ var g = &grammar{
 																									pos: position{line: 662, col: 63, offset: 21000},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21123},
-																										run: (*parser).callonNormalGroup118,
+																										run: (*parser).callonNormalGroup119,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21123},
 																											exprs: []interface{}{
@@ -44518,7 +44534,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21134},
-																																run: (*parser).callonNormalGroup123,
+																																run: (*parser).callonNormalGroup124,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21134},
 																																	val:        "[A-Za-z]",
@@ -44529,7 +44545,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21188},
-																																run: (*parser).callonNormalGroup125,
+																																run: (*parser).callonNormalGroup126,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21188},
 																																	expr: &charClassMatcher{
@@ -44578,20 +44594,20 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2467, col: 5, offset: 79244},
-															run: (*parser).callonNormalGroup132,
+															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
 																pos: position{line: 2467, col: 5, offset: 79244},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2467, col: 5, offset: 79244},
-																		run: (*parser).callonNormalGroup134,
+																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 2470, col: 5, offset: 79320},
 																		label: "element",
 																		expr: &actionExpr{
 																			pos: position{line: 2471, col: 9, offset: 79338},
-																			run: (*parser).callonNormalGroup136,
+																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2471, col: 10, offset: 79339},
 																				val:        "[<>&]",
@@ -44606,13 +44622,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1206, col: 5, offset: 37418},
-															run: (*parser).callonNormalGroup138,
+															run: (*parser).callonNormalGroup139,
 															expr: &seqExpr{
 																pos: position{line: 1206, col: 5, offset: 37418},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1206, col: 5, offset: 37418},
-																		run: (*parser).callonNormalGroup140,
+																		run: (*parser).callonNormalGroup141,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1209, col: 5, offset: 37494},
@@ -44622,15 +44638,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1210, col: 5, offset: 37502},
-																		run: (*parser).callonNormalGroup142,
+																		run: (*parser).callonNormalGroup143,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37589},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
-																			run: (*parser).callonNormalGroup144,
+																			pos: position{line: 2873, col: 10, offset: 90784},
+																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44641,28 +44657,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37596},
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 8, offset: 91111},
+																			pos: position{line: 2895, col: 8, offset: 91182},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
-																					run: (*parser).callonNormalGroup148,
+																					pos: position{line: 2882, col: 12, offset: 90955},
+																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44671,9 +44687,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2889, col: 8, offset: 91061},
+																					pos: position{line: 2892, col: 8, offset: 91132},
 																					expr: &anyMatcher{
-																						line: 2889, col: 9, offset: 91062,
+																						line: 2892, col: 9, offset: 91133,
 																					},
 																				},
 																			},
@@ -44688,7 +44704,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1198, col: 23, offset: 36972},
-															run: (*parser).callonNormalGroup156,
+															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
 																pos: position{line: 1198, col: 23, offset: 36972},
 																exprs: []interface{}{
@@ -44703,7 +44719,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1198, col: 56, offset: 37005},
-																			run: (*parser).callonNormalGroup160,
+																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1198, col: 56, offset: 37005},
 																				expr: &charClassMatcher{
@@ -44726,10 +44742,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2809, col: 12, offset: 89021},
-															run: (*parser).callonNormalGroup164,
+															pos: position{line: 2812, col: 12, offset: 89092},
+															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 12, offset: 89021},
+																pos:        position{line: 2812, col: 12, offset: 89092},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44745,9 +44761,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -44775,9 +44791,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -44794,9 +44810,9 @@ var g = &grammar{
 					pos: position{line: 2397, col: 5, offset: 77580},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2887, col: 11, offset: 91047},
+							pos: position{line: 2890, col: 11, offset: 91118},
 							expr: &anyMatcher{
-								line: 2887, col: 13, offset: 91049,
+								line: 2890, col: 13, offset: 91120,
 							},
 						},
 						&labeledExpr{
@@ -44806,21 +44822,21 @@ var g = &grammar{
 								pos: position{line: 2399, col: 9, offset: 77609},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87955},
+										pos: position{line: 2772, col: 5, offset: 88026},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2769, col: 5, offset: 87955},
+											pos: position{line: 2772, col: 5, offset: 88026},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2769, col: 5, offset: 87955},
+													pos:   position{line: 2772, col: 5, offset: 88026},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2769, col: 11, offset: 87961},
+														pos: position{line: 2772, col: 11, offset: 88032},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2769, col: 11, offset: 87961},
+															pos: position{line: 2772, col: 11, offset: 88032},
 															expr: &charClassMatcher{
-																pos:        position{line: 2769, col: 11, offset: 87961},
+																pos:        position{line: 2772, col: 11, offset: 88032},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44830,36 +44846,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88019},
+													pos: position{line: 2775, col: 5, offset: 88090},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88030},
+														pos: position{line: 2776, col: 9, offset: 88101},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88030},
+																pos:        position{line: 2776, col: 9, offset: 88101},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2774, col: 9, offset: 88079},
+																pos: position{line: 2777, col: 9, offset: 88150},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88159},
+													pos: position{line: 2781, col: 5, offset: 88230},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88170},
+														pos: position{line: 2782, col: 9, offset: 88241},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88170},
+																pos:        position{line: 2782, col: 9, offset: 88241},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2779, col: 13, offset: 88174},
+																pos:        position{line: 2782, col: 13, offset: 88245},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44872,10 +44888,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 10, offset: 90713},
+										pos: position{line: 2873, col: 10, offset: 90784},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2870, col: 10, offset: 90713},
+											pos:        position{line: 2873, col: 10, offset: 90784},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -44887,27 +44903,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2787, col: 5, offset: 88367},
+										pos: position{line: 2790, col: 5, offset: 88438},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2788, col: 9, offset: 88377},
+											pos: position{line: 2791, col: 9, offset: 88448},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2788, col: 10, offset: 88378},
+													pos:        position{line: 2791, col: 10, offset: 88449},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88475},
+													pos: position{line: 2793, col: 13, offset: 88546},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88475},
+															pos: position{line: 2793, col: 13, offset: 88546},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2793, col: 13, offset: 88575},
+															pos:        position{line: 2796, col: 13, offset: 88646},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44915,20 +44931,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2793, col: 19, offset: 88581},
+													pos:        position{line: 2796, col: 19, offset: 88652},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88619},
+													pos: position{line: 2799, col: 13, offset: 88690},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88619},
+															pos: position{line: 2799, col: 13, offset: 88690},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2799, col: 14, offset: 88712},
+															pos:        position{line: 2802, col: 14, offset: 88783},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44937,18 +44953,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 12, offset: 88756},
+													pos: position{line: 2804, col: 12, offset: 88827},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2801, col: 12, offset: 88756},
+															pos:        position{line: 2804, col: 12, offset: 88827},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2801, col: 16, offset: 88760},
+															pos: position{line: 2804, col: 16, offset: 88831},
 															expr: &litMatcher{
-																pos:        position{line: 2801, col: 17, offset: 88761},
+																pos:        position{line: 2804, col: 17, offset: 88832},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45035,25 +45051,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2879, col: 12, offset: 90884},
+										pos: position{line: 2882, col: 12, offset: 90955},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2879, col: 13, offset: 90885},
+											pos: position{line: 2882, col: 13, offset: 90956},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2879, col: 13, offset: 90885},
+													pos:        position{line: 2882, col: 13, offset: 90956},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 20, offset: 90892},
+													pos:        position{line: 2882, col: 20, offset: 90963},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2879, col: 29, offset: 90901},
+													pos:        position{line: 2882, col: 29, offset: 90972},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45062,10 +45078,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2809, col: 12, offset: 89021},
+										pos: position{line: 2812, col: 12, offset: 89092},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2809, col: 12, offset: 89021},
+											pos:        position{line: 2812, col: 12, offset: 89092},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45142,12 +45158,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 7, offset: 90365},
+														pos: position{line: 2858, col: 7, offset: 90436},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2855, col: 7, offset: 90365},
+															pos: position{line: 2858, col: 7, offset: 90436},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 7, offset: 90365},
+																pos:        position{line: 2858, col: 7, offset: 90436},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45181,12 +45197,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 7, offset: 90365},
+														pos: position{line: 2858, col: 7, offset: 90436},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2855, col: 7, offset: 90365},
+															pos: position{line: 2858, col: 7, offset: 90436},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 7, offset: 90365},
+																pos:        position{line: 2858, col: 7, offset: 90436},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45228,17 +45244,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40695},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2760, col: 13, offset: 87808},
+																		pos:        position{line: 2763, col: 13, offset: 87879},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 10, offset: 90713},
+																		pos: position{line: 2873, col: 10, offset: 90784},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 10, offset: 90713},
+																			pos:        position{line: 2873, col: 10, offset: 90784},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45264,10 +45280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40409},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45284,10 +45300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40420},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45307,17 +45323,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2760, col: 13, offset: 87808},
+																							pos:        position{line: 2763, col: 13, offset: 87879},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45348,10 +45364,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40501},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45368,10 +45384,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40512},
 																		expr: &actionExpr{
-																			pos: position{line: 2870, col: 10, offset: 90713},
+																			pos: position{line: 2873, col: 10, offset: 90784},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 10, offset: 90713},
+																				pos:        position{line: 2873, col: 10, offset: 90784},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45391,17 +45407,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2760, col: 13, offset: 87808},
+																							pos:        position{line: 2763, col: 13, offset: 87879},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 10, offset: 90713},
+																							pos: position{line: 2873, col: 10, offset: 90784},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 10, offset: 90713},
+																								pos:        position{line: 2873, col: 10, offset: 90784},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45518,10 +45534,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44410},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 10, offset: 90713},
+																					pos: position{line: 2873, col: 10, offset: 90784},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 10, offset: 90713},
+																						pos:        position{line: 2873, col: 10, offset: 90784},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45532,25 +45548,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44417},
 																				expr: &actionExpr{
-																					pos: position{line: 2879, col: 12, offset: 90884},
+																					pos: position{line: 2882, col: 12, offset: 90955},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2879, col: 13, offset: 90885},
+																						pos: position{line: 2882, col: 13, offset: 90956},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 13, offset: 90885},
+																								pos:        position{line: 2882, col: 13, offset: 90956},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 20, offset: 90892},
+																								pos:        position{line: 2882, col: 20, offset: 90963},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2879, col: 29, offset: 90901},
+																								pos:        position{line: 2882, col: 29, offset: 90972},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45587,7 +45603,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44059},
 													expr: &charClassMatcher{
-														pos:        position{line: 2760, col: 13, offset: 87808},
+														pos:        position{line: 2763, col: 13, offset: 87879},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45633,10 +45649,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43519},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45647,25 +45663,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43526},
 																			expr: &actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45688,12 +45704,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43541},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 11, offset: 90774},
+																									pos: position{line: 2877, col: 11, offset: 90845},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2874, col: 11, offset: 90774},
+																										pos: position{line: 2877, col: 11, offset: 90845},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 11, offset: 90774},
+																											pos:        position{line: 2877, col: 11, offset: 90845},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45722,25 +45738,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43606},
 																						expr: &actionExpr{
-																							pos: position{line: 2879, col: 12, offset: 90884},
+																							pos: position{line: 2882, col: 12, offset: 90955},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2879, col: 13, offset: 90885},
+																								pos: position{line: 2882, col: 13, offset: 90956},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 13, offset: 90885},
+																										pos:        position{line: 2882, col: 13, offset: 90956},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 20, offset: 90892},
+																										pos:        position{line: 2882, col: 20, offset: 90963},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2879, col: 29, offset: 90901},
+																										pos:        position{line: 2882, col: 29, offset: 90972},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45767,10 +45783,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43766},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 10, offset: 90713},
+																				pos: position{line: 2873, col: 10, offset: 90784},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 10, offset: 90713},
+																					pos:        position{line: 2873, col: 10, offset: 90784},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45781,25 +45797,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43773},
 																			expr: &actionExpr{
-																				pos: position{line: 2879, col: 12, offset: 90884},
+																				pos: position{line: 2882, col: 12, offset: 90955},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2879, col: 13, offset: 90885},
+																					pos: position{line: 2882, col: 13, offset: 90956},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 13, offset: 90885},
+																							pos:        position{line: 2882, col: 13, offset: 90956},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 20, offset: 90892},
+																							pos:        position{line: 2882, col: 20, offset: 90963},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2879, col: 29, offset: 90901},
+																							pos:        position{line: 2882, col: 29, offset: 90972},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45835,7 +45851,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43342},
 													expr: &charClassMatcher{
-														pos:        position{line: 2760, col: 13, offset: 87808},
+														pos:        position{line: 2763, col: 13, offset: 87879},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45900,103 +45916,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2515, col: 1, offset: 80866},
+			pos:  position{line: 2518, col: 1, offset: 80937},
 			expr: &choiceExpr{
-				pos: position{line: 2517, col: 5, offset: 80896},
+				pos: position{line: 2520, col: 5, offset: 80967},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2517, col: 5, offset: 80896},
+						pos: position{line: 2520, col: 5, offset: 80967},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2517, col: 5, offset: 80896},
+							pos: position{line: 2520, col: 5, offset: 80967},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2517, col: 5, offset: 80896},
+									pos:        position{line: 2520, col: 5, offset: 80967},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2517, col: 10, offset: 80901},
+									pos: position{line: 2520, col: 10, offset: 80972},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2517, col: 10, offset: 80901},
+											pos:  position{line: 2520, col: 10, offset: 80972},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2546, col: 14, offset: 82005},
+											pos: position{line: 2549, col: 14, offset: 82076},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2546, col: 14, offset: 82005},
+												pos:        position{line: 2549, col: 14, offset: 82076},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2550, col: 14, offset: 82071},
+											pos: position{line: 2553, col: 14, offset: 82142},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2550, col: 14, offset: 82071},
+												pos:        position{line: 2553, col: 14, offset: 82142},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2554, col: 15, offset: 82140},
+											pos: position{line: 2557, col: 15, offset: 82211},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2554, col: 15, offset: 82140},
+												pos:        position{line: 2557, col: 15, offset: 82211},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2558, col: 13, offset: 82205},
+											pos: position{line: 2561, col: 13, offset: 82276},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2558, col: 13, offset: 82205},
+												pos:        position{line: 2561, col: 13, offset: 82276},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2586, col: 21, offset: 82775},
+											pos: position{line: 2589, col: 21, offset: 82846},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2586, col: 21, offset: 82775},
+												pos:        position{line: 2589, col: 21, offset: 82846},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2565, col: 5, offset: 82361},
+											pos: position{line: 2568, col: 5, offset: 82432},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2565, col: 5, offset: 82361},
+												pos: position{line: 2568, col: 5, offset: 82432},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2565, col: 5, offset: 82361},
+														pos:        position{line: 2568, col: 5, offset: 82432},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2566, col: 5, offset: 82371},
+														pos: position{line: 2569, col: 5, offset: 82442},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2570, col: 6, offset: 82458},
+														pos: position{line: 2573, col: 6, offset: 82529},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 10, offset: 90713},
+																pos: position{line: 2873, col: 10, offset: 90784},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2870, col: 10, offset: 90713},
+																	pos:        position{line: 2873, col: 10, offset: 90784},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46004,30 +46020,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2570, col: 14, offset: 82466},
+																pos: position{line: 2573, col: 14, offset: 82537},
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 8, offset: 91111},
+																	pos: position{line: 2895, col: 8, offset: 91182},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 12, offset: 90884},
+																			pos: position{line: 2882, col: 12, offset: 90955},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2879, col: 13, offset: 90885},
+																				pos: position{line: 2882, col: 13, offset: 90956},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 13, offset: 90885},
+																						pos:        position{line: 2882, col: 13, offset: 90956},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 20, offset: 90892},
+																						pos:        position{line: 2882, col: 20, offset: 90963},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2879, col: 29, offset: 90901},
+																						pos:        position{line: 2882, col: 29, offset: 90972},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46036,9 +46052,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2889, col: 8, offset: 91061},
+																			pos: position{line: 2892, col: 8, offset: 91132},
 																			expr: &anyMatcher{
-																				line: 2889, col: 9, offset: 91062,
+																				line: 2892, col: 9, offset: 91133,
 																			},
 																		},
 																	},
@@ -46050,53 +46066,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2575, col: 5, offset: 82586},
+											pos: position{line: 2578, col: 5, offset: 82657},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2575, col: 5, offset: 82586},
+												pos: position{line: 2578, col: 5, offset: 82657},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2575, col: 5, offset: 82586},
+														pos:        position{line: 2578, col: 5, offset: 82657},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2576, col: 5, offset: 82596},
+														pos: position{line: 2579, col: 5, offset: 82667},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2580, col: 5, offset: 82685},
+														pos: position{line: 2583, col: 5, offset: 82756},
 														expr: &choiceExpr{
-															pos: position{line: 2580, col: 7, offset: 82687},
+															pos: position{line: 2583, col: 7, offset: 82758},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2760, col: 13, offset: 87808},
+																	pos:        position{line: 2763, col: 13, offset: 87879},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 12, offset: 90884},
+																	pos: position{line: 2882, col: 12, offset: 90955},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2879, col: 13, offset: 90885},
+																		pos: position{line: 2882, col: 13, offset: 90956},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2879, col: 13, offset: 90885},
+																				pos:        position{line: 2882, col: 13, offset: 90956},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2879, col: 20, offset: 90892},
+																				pos:        position{line: 2882, col: 20, offset: 90963},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2879, col: 29, offset: 90901},
+																				pos:        position{line: 2882, col: 29, offset: 90972},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46105,9 +46121,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -46117,30 +46133,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2590, col: 20, offset: 82845},
+											pos: position{line: 2593, col: 20, offset: 82916},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2590, col: 20, offset: 82845},
+												pos:        position{line: 2593, col: 20, offset: 82916},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2594, col: 21, offset: 82916},
+											pos: position{line: 2597, col: 21, offset: 82987},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2594, col: 21, offset: 82916},
+												pos:        position{line: 2597, col: 21, offset: 82987},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2598, col: 20, offset: 82986},
+											pos: position{line: 2601, col: 20, offset: 83057},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2598, col: 20, offset: 82986},
+												pos:        position{line: 2601, col: 20, offset: 83057},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46152,73 +46168,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2521, col: 7, offset: 81156},
+						pos:  position{line: 2524, col: 7, offset: 81227},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 14, offset: 82005},
+						pos: position{line: 2549, col: 14, offset: 82076},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2546, col: 14, offset: 82005},
+							pos:        position{line: 2549, col: 14, offset: 82076},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 14, offset: 82071},
+						pos: position{line: 2553, col: 14, offset: 82142},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2550, col: 14, offset: 82071},
+							pos:        position{line: 2553, col: 14, offset: 82142},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2554, col: 15, offset: 82140},
+						pos: position{line: 2557, col: 15, offset: 82211},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2554, col: 15, offset: 82140},
+							pos:        position{line: 2557, col: 15, offset: 82211},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 13, offset: 82205},
+						pos: position{line: 2561, col: 13, offset: 82276},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2558, col: 13, offset: 82205},
+							pos:        position{line: 2561, col: 13, offset: 82276},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 5, offset: 82361},
+						pos: position{line: 2568, col: 5, offset: 82432},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 5, offset: 82361},
+							pos: position{line: 2568, col: 5, offset: 82432},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 5, offset: 82361},
+									pos:        position{line: 2568, col: 5, offset: 82432},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2566, col: 5, offset: 82371},
+									pos: position{line: 2569, col: 5, offset: 82442},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2570, col: 6, offset: 82458},
+									pos: position{line: 2573, col: 6, offset: 82529},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2870, col: 10, offset: 90713},
+											pos: position{line: 2873, col: 10, offset: 90784},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 10, offset: 90713},
+												pos:        position{line: 2873, col: 10, offset: 90784},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46226,30 +46242,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2570, col: 14, offset: 82466},
+											pos: position{line: 2573, col: 14, offset: 82537},
 											expr: &choiceExpr{
-												pos: position{line: 2892, col: 8, offset: 91111},
+												pos: position{line: 2895, col: 8, offset: 91182},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2879, col: 12, offset: 90884},
+														pos: position{line: 2882, col: 12, offset: 90955},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2879, col: 13, offset: 90885},
+															pos: position{line: 2882, col: 13, offset: 90956},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2879, col: 13, offset: 90885},
+																	pos:        position{line: 2882, col: 13, offset: 90956},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 20, offset: 90892},
+																	pos:        position{line: 2882, col: 20, offset: 90963},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2879, col: 29, offset: 90901},
+																	pos:        position{line: 2882, col: 29, offset: 90972},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46258,9 +46274,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2889, col: 8, offset: 91061},
+														pos: position{line: 2892, col: 8, offset: 91132},
 														expr: &anyMatcher{
-															line: 2889, col: 9, offset: 91062,
+															line: 2892, col: 9, offset: 91133,
 														},
 													},
 												},
@@ -46272,53 +46288,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2575, col: 5, offset: 82586},
+						pos: position{line: 2578, col: 5, offset: 82657},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2575, col: 5, offset: 82586},
+							pos: position{line: 2578, col: 5, offset: 82657},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2575, col: 5, offset: 82586},
+									pos:        position{line: 2578, col: 5, offset: 82657},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2576, col: 5, offset: 82596},
+									pos: position{line: 2579, col: 5, offset: 82667},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2580, col: 5, offset: 82685},
+									pos: position{line: 2583, col: 5, offset: 82756},
 									expr: &choiceExpr{
-										pos: position{line: 2580, col: 7, offset: 82687},
+										pos: position{line: 2583, col: 7, offset: 82758},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2760, col: 13, offset: 87808},
+												pos:        position{line: 2763, col: 13, offset: 87879},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2879, col: 12, offset: 90884},
+												pos: position{line: 2882, col: 12, offset: 90955},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2879, col: 13, offset: 90885},
+													pos: position{line: 2882, col: 13, offset: 90956},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2879, col: 13, offset: 90885},
+															pos:        position{line: 2882, col: 13, offset: 90956},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2879, col: 20, offset: 90892},
+															pos:        position{line: 2882, col: 20, offset: 90963},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2879, col: 29, offset: 90901},
+															pos:        position{line: 2882, col: 29, offset: 90972},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46327,9 +46343,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2889, col: 8, offset: 91061},
+												pos: position{line: 2892, col: 8, offset: 91132},
 												expr: &anyMatcher{
-													line: 2889, col: 9, offset: 91062,
+													line: 2892, col: 9, offset: 91133,
 												},
 											},
 										},
@@ -46339,40 +46355,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 21, offset: 82775},
+						pos: position{line: 2589, col: 21, offset: 82846},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2586, col: 21, offset: 82775},
+							pos:        position{line: 2589, col: 21, offset: 82846},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 20, offset: 82845},
+						pos: position{line: 2593, col: 20, offset: 82916},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2590, col: 20, offset: 82845},
+							pos:        position{line: 2593, col: 20, offset: 82916},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 21, offset: 82916},
+						pos: position{line: 2597, col: 21, offset: 82987},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2594, col: 21, offset: 82916},
+							pos:        position{line: 2597, col: 21, offset: 82987},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2598, col: 20, offset: 82986},
+						pos: position{line: 2601, col: 20, offset: 83057},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2598, col: 20, offset: 82986},
+							pos:        position{line: 2601, col: 20, offset: 83057},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46383,24 +46399,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2532, col: 1, offset: 81346},
+			pos:  position{line: 2535, col: 1, offset: 81417},
 			expr: &choiceExpr{
-				pos: position{line: 2533, col: 5, offset: 81368},
+				pos: position{line: 2536, col: 5, offset: 81439},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2533, col: 5, offset: 81368},
+						pos: position{line: 2536, col: 5, offset: 81439},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 5, offset: 81368},
+							pos: position{line: 2536, col: 5, offset: 81439},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 5, offset: 81368},
+									pos:        position{line: 2536, col: 5, offset: 81439},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2533, col: 11, offset: 81374},
+									pos: position{line: 2536, col: 11, offset: 81445},
 									expr: &seqExpr{
 										pos: position{line: 2078, col: 5, offset: 67104},
 										exprs: []interface{}{
@@ -46433,21 +46449,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 7, offset: 81527},
+						pos: position{line: 2539, col: 7, offset: 81598},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 7, offset: 81527},
+							pos: position{line: 2539, col: 7, offset: 81598},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 7, offset: 81527},
+									pos:        position{line: 2539, col: 7, offset: 81598},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 13, offset: 81533},
+									pos: position{line: 2539, col: 13, offset: 81604},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2536, col: 14, offset: 81534},
+										pos:  position{line: 2539, col: 14, offset: 81605},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46455,19 +46471,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 7, offset: 81684},
+						pos: position{line: 2542, col: 7, offset: 81755},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 7, offset: 81684},
+							pos: position{line: 2542, col: 7, offset: 81755},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 7, offset: 81684},
+									pos:        position{line: 2542, col: 7, offset: 81755},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 12, offset: 81689},
+									pos: position{line: 2542, col: 12, offset: 81760},
 									expr: &seqExpr{
 										pos: position{line: 2078, col: 5, offset: 67104},
 										exprs: []interface{}{
@@ -46500,21 +46516,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81842},
+						pos: position{line: 2545, col: 7, offset: 81913},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81842},
+							pos: position{line: 2545, col: 7, offset: 81913},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81842},
+									pos:        position{line: 2545, col: 7, offset: 81913},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 12, offset: 81847},
+									pos: position{line: 2545, col: 12, offset: 81918},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2542, col: 13, offset: 81848},
+										pos:  position{line: 2545, col: 13, offset: 81919},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46526,63 +46542,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2675, col: 1, offset: 84888},
+			pos:  position{line: 2678, col: 1, offset: 84959},
 			expr: &actionExpr{
-				pos: position{line: 2675, col: 26, offset: 84913},
+				pos: position{line: 2678, col: 26, offset: 84984},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2675, col: 26, offset: 84913},
+					pos: position{line: 2678, col: 26, offset: 84984},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2675, col: 26, offset: 84913},
+							pos:   position{line: 2678, col: 26, offset: 84984},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2675, col: 31, offset: 84918},
+								pos: position{line: 2678, col: 31, offset: 84989},
 								expr: &actionExpr{
-									pos: position{line: 2680, col: 5, offset: 84981},
+									pos: position{line: 2683, col: 5, offset: 85052},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2680, col: 5, offset: 84981},
+										pos: position{line: 2683, col: 5, offset: 85052},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2887, col: 11, offset: 91047},
+												pos: position{line: 2890, col: 11, offset: 91118},
 												expr: &anyMatcher{
-													line: 2887, col: 13, offset: 91049,
+													line: 2890, col: 13, offset: 91120,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2683, col: 5, offset: 85107},
+												pos:   position{line: 2686, col: 5, offset: 85178},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2683, col: 16, offset: 85118},
+													pos: position{line: 2686, col: 16, offset: 85189},
 													expr: &actionExpr{
-														pos: position{line: 2683, col: 17, offset: 85119},
+														pos: position{line: 2686, col: 17, offset: 85190},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2683, col: 17, offset: 85119},
+															pos: position{line: 2686, col: 17, offset: 85190},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2683, col: 17, offset: 85119},
+																	pos:   position{line: 2686, col: 17, offset: 85190},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 12, offset: 90540},
+																		pos: position{line: 2865, col: 12, offset: 90611},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2862, col: 13, offset: 90541},
+																			pos: position{line: 2865, col: 13, offset: 90612},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2862, col: 13, offset: 90541},
+																					pos: position{line: 2865, col: 13, offset: 90612},
 																					expr: &litMatcher{
-																						pos:        position{line: 2862, col: 13, offset: 90541},
+																						pos:        position{line: 2865, col: 13, offset: 90612},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2862, col: 18, offset: 90546},
+																					pos: position{line: 2865, col: 18, offset: 90617},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 18, offset: 90546},
+																						pos:        position{line: 2865, col: 18, offset: 90617},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46594,7 +46610,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2683, col: 27, offset: 85129},
+																	pos:        position{line: 2686, col: 27, offset: 85200},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46605,38 +46621,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2684, col: 5, offset: 85157},
+												pos:   position{line: 2687, col: 5, offset: 85228},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2684, col: 12, offset: 85164},
+													pos: position{line: 2687, col: 12, offset: 85235},
 													expr: &choiceExpr{
-														pos: position{line: 2685, col: 9, offset: 85174},
+														pos: position{line: 2688, col: 9, offset: 85245},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2685, col: 9, offset: 85174},
+																pos: position{line: 2688, col: 9, offset: 85245},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 9, offset: 85174},
+																	pos:        position{line: 2688, col: 9, offset: 85245},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2686, col: 11, offset: 85221},
+																pos: position{line: 2689, col: 11, offset: 85292},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 11, offset: 85221},
+																	pos:        position{line: 2689, col: 11, offset: 85292},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2687, col: 11, offset: 85269},
+																pos: position{line: 2690, col: 11, offset: 85340},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 11, offset: 85269},
+																	pos:        position{line: 2690, col: 11, offset: 85340},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46647,38 +46663,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85319},
+												pos:   position{line: 2692, col: 5, offset: 85390},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 12, offset: 85326},
+													pos: position{line: 2692, col: 12, offset: 85397},
 													expr: &choiceExpr{
-														pos: position{line: 2690, col: 9, offset: 85336},
+														pos: position{line: 2693, col: 9, offset: 85407},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2690, col: 9, offset: 85336},
+																pos: position{line: 2693, col: 9, offset: 85407},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 9, offset: 85336},
+																	pos:        position{line: 2693, col: 9, offset: 85407},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2691, col: 11, offset: 85383},
+																pos: position{line: 2694, col: 11, offset: 85454},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 11, offset: 85383},
+																	pos:        position{line: 2694, col: 11, offset: 85454},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85433},
+																pos: position{line: 2695, col: 11, offset: 85504},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85433},
+																	pos:        position{line: 2695, col: 11, offset: 85504},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46689,32 +46705,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2694, col: 5, offset: 85484},
+												pos:   position{line: 2697, col: 5, offset: 85555},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2694, col: 12, offset: 85491},
+													pos: position{line: 2697, col: 12, offset: 85562},
 													expr: &choiceExpr{
-														pos: position{line: 2694, col: 13, offset: 85492},
+														pos: position{line: 2697, col: 13, offset: 85563},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2862, col: 12, offset: 90540},
+																pos: position{line: 2865, col: 12, offset: 90611},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2862, col: 13, offset: 90541},
+																	pos: position{line: 2865, col: 13, offset: 90612},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2862, col: 13, offset: 90541},
+																			pos: position{line: 2865, col: 13, offset: 90612},
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 13, offset: 90541},
+																				pos:        position{line: 2865, col: 13, offset: 90612},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 18, offset: 90546},
+																			pos: position{line: 2865, col: 18, offset: 90617},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 18, offset: 90546},
+																				pos:        position{line: 2865, col: 18, offset: 90617},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46725,10 +46741,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 24, offset: 85503},
+																pos: position{line: 2697, col: 24, offset: 85574},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 24, offset: 85503},
+																	pos:        position{line: 2697, col: 24, offset: 85574},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46739,15 +46755,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85545},
+												pos:   position{line: 2698, col: 5, offset: 85616},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 11, offset: 85551},
+													pos: position{line: 2698, col: 11, offset: 85622},
 													expr: &actionExpr{
-														pos: position{line: 2695, col: 12, offset: 85552},
+														pos: position{line: 2698, col: 12, offset: 85623},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2695, col: 12, offset: 85552},
+															pos:        position{line: 2698, col: 12, offset: 85623},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46757,12 +46773,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85682},
+												pos:   position{line: 2700, col: 5, offset: 85753},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 11, offset: 85688},
+													pos: position{line: 2700, col: 11, offset: 85759},
 													expr: &litMatcher{
-														pos:        position{line: 2697, col: 12, offset: 85689},
+														pos:        position{line: 2700, col: 12, offset: 85760},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46770,7 +46786,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2698, col: 5, offset: 85699},
+												pos: position{line: 2701, col: 5, offset: 85770},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46779,9 +46795,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2889, col: 8, offset: 91061},
+							pos: position{line: 2892, col: 8, offset: 91132},
 							expr: &anyMatcher{
-								line: 2889, col: 9, offset: 91062,
+								line: 2892, col: 9, offset: 91133,
 							},
 						},
 					},
@@ -46790,23 +46806,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2725, col: 1, offset: 86708},
+			pos:  position{line: 2728, col: 1, offset: 86779},
 			expr: &actionExpr{
-				pos: position{line: 2726, col: 5, offset: 86731},
+				pos: position{line: 2729, col: 5, offset: 86802},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2726, col: 5, offset: 86731},
+					pos: position{line: 2729, col: 5, offset: 86802},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86731},
+							pos:   position{line: 2729, col: 5, offset: 86802},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2749, col: 18, offset: 87472},
+								pos: position{line: 2752, col: 18, offset: 87543},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2749, col: 19, offset: 87473},
+									pos: position{line: 2752, col: 19, offset: 87544},
 									expr: &charClassMatcher{
-										pos:        position{line: 2749, col: 19, offset: 87473},
+										pos:        position{line: 2752, col: 19, offset: 87544},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46817,25 +46833,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2727, col: 5, offset: 86757},
+							pos: position{line: 2730, col: 5, offset: 86828},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2731, col: 5, offset: 86885},
+							pos:        position{line: 2734, col: 5, offset: 86956},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 86895},
+							pos:   position{line: 2735, col: 5, offset: 86966},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2753, col: 19, offset: 87548},
+								pos: position{line: 2756, col: 19, offset: 87619},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2753, col: 19, offset: 87548},
+									pos: position{line: 2756, col: 19, offset: 87619},
 									expr: &charClassMatcher{
-										pos:        position{line: 2753, col: 19, offset: 87548},
+										pos:        position{line: 2756, col: 19, offset: 87619},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46845,36 +46861,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2733, col: 5, offset: 86923},
+							pos:   position{line: 2736, col: 5, offset: 86994},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2733, col: 17, offset: 86935},
+								pos:  position{line: 2736, col: 17, offset: 87006},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2892, col: 8, offset: 91111},
+							pos: position{line: 2895, col: 8, offset: 91182},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2879, col: 12, offset: 90884},
+									pos: position{line: 2882, col: 12, offset: 90955},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2879, col: 13, offset: 90885},
+										pos: position{line: 2882, col: 13, offset: 90956},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2879, col: 13, offset: 90885},
+												pos:        position{line: 2882, col: 13, offset: 90956},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 20, offset: 90892},
+												pos:        position{line: 2882, col: 20, offset: 90963},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2879, col: 29, offset: 90901},
+												pos:        position{line: 2882, col: 29, offset: 90972},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46883,9 +46899,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 8, offset: 91061},
+									pos: position{line: 2892, col: 8, offset: 91132},
 									expr: &anyMatcher{
-										line: 2889, col: 9, offset: 91062,
+										line: 2892, col: 9, offset: 91133,
 									},
 								},
 							},
@@ -46896,23 +46912,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2737, col: 1, offset: 87083},
+			pos:  position{line: 2740, col: 1, offset: 87154},
 			expr: &actionExpr{
-				pos: position{line: 2738, col: 5, offset: 87107},
+				pos: position{line: 2741, col: 5, offset: 87178},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2738, col: 5, offset: 87107},
+					pos: position{line: 2741, col: 5, offset: 87178},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87107},
+							pos:   position{line: 2741, col: 5, offset: 87178},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2749, col: 18, offset: 87472},
+								pos: position{line: 2752, col: 18, offset: 87543},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2749, col: 19, offset: 87473},
+									pos: position{line: 2752, col: 19, offset: 87544},
 									expr: &charClassMatcher{
-										pos:        position{line: 2749, col: 19, offset: 87473},
+										pos:        position{line: 2752, col: 19, offset: 87544},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46923,25 +46939,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2739, col: 5, offset: 87133},
+							pos: position{line: 2742, col: 5, offset: 87204},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2743, col: 5, offset: 87261},
+							pos:        position{line: 2746, col: 5, offset: 87332},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2744, col: 5, offset: 87270},
+							pos:   position{line: 2747, col: 5, offset: 87341},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2753, col: 19, offset: 87548},
+								pos: position{line: 2756, col: 19, offset: 87619},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2753, col: 19, offset: 87548},
+									pos: position{line: 2756, col: 19, offset: 87619},
 									expr: &charClassMatcher{
-										pos:        position{line: 2753, col: 19, offset: 87548},
+										pos:        position{line: 2756, col: 19, offset: 87619},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46951,10 +46967,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2745, col: 5, offset: 87298},
+							pos:   position{line: 2748, col: 5, offset: 87369},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2745, col: 17, offset: 87310},
+								pos:  position{line: 2748, col: 17, offset: 87381},
 								name: "InlineAttributes",
 							},
 						},
@@ -46964,43 +46980,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2824, col: 1, offset: 89360},
+			pos:  position{line: 2827, col: 1, offset: 89431},
 			expr: &actionExpr{
-				pos: position{line: 2824, col: 17, offset: 89376},
+				pos: position{line: 2827, col: 17, offset: 89447},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2824, col: 17, offset: 89376},
+					pos:   position{line: 2827, col: 17, offset: 89447},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2841, col: 5, offset: 89830},
+						pos: position{line: 2844, col: 5, offset: 89901},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2841, col: 5, offset: 89830},
+							pos:   position{line: 2844, col: 5, offset: 89901},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2841, col: 14, offset: 89839},
+								pos: position{line: 2844, col: 14, offset: 89910},
 								expr: &choiceExpr{
-									pos: position{line: 2842, col: 9, offset: 89849},
+									pos: position{line: 2845, col: 9, offset: 89920},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2842, col: 9, offset: 89849},
+											pos: position{line: 2845, col: 9, offset: 89920},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2842, col: 9, offset: 89849},
+												pos: position{line: 2845, col: 9, offset: 89920},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2842, col: 9, offset: 89849},
+														pos: position{line: 2845, col: 9, offset: 89920},
 														expr: &litMatcher{
-															pos:        position{line: 2842, col: 10, offset: 89850},
+															pos:        position{line: 2845, col: 10, offset: 89921},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2843, col: 9, offset: 89878},
+														pos: position{line: 2846, col: 9, offset: 89949},
 														expr: &charClassMatcher{
-															pos:        position{line: 2843, col: 10, offset: 89879},
+															pos:        position{line: 2846, col: 10, offset: 89950},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47011,27 +47027,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2846, col: 11, offset: 90091},
+											pos: position{line: 2849, col: 11, offset: 90162},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 11, offset: 90091},
+													pos:        position{line: 2849, col: 11, offset: 90162},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2846, col: 19, offset: 90099},
+													pos: position{line: 2849, col: 19, offset: 90170},
 													expr: &seqExpr{
-														pos: position{line: 2846, col: 21, offset: 90101},
+														pos: position{line: 2849, col: 21, offset: 90172},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2846, col: 21, offset: 90101},
+																pos: position{line: 2849, col: 21, offset: 90172},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 10, offset: 90713},
+																	pos: position{line: 2873, col: 10, offset: 90784},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 10, offset: 90713},
+																		pos:        position{line: 2873, col: 10, offset: 90784},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47040,11 +47056,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2846, col: 28, offset: 90108},
+																pos: position{line: 2849, col: 28, offset: 90179},
 																expr: &notExpr{
-																	pos: position{line: 2889, col: 8, offset: 91061},
+																	pos: position{line: 2892, col: 8, offset: 91132},
 																	expr: &anyMatcher{
-																		line: 2889, col: 9, offset: 91062,
+																		line: 2892, col: 9, offset: 91133,
 																	},
 																},
 															},
@@ -47439,10 +47455,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2849, col: 11, offset: 90228},
+											pos: position{line: 2852, col: 11, offset: 90299},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2849, col: 11, offset: 90228},
+												pos:        position{line: 2852, col: 11, offset: 90299},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -57868,6 +57884,17 @@ func (p *parser) callonFootnoteElement21() (interface{}, error) {
 	return p.cur.onFootnoteElement21()
 }
 
+func (c *current) onFootnoteElement26() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonFootnoteElement26() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement26()
+}
+
 func (c *current) onFootnoteElement24() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -57880,159 +57907,159 @@ func (p *parser) callonFootnoteElement24() (interface{}, error) {
 	return p.cur.onFootnoteElement24()
 }
 
-func (c *current) onFootnoteElement31() (bool, error) {
+func (c *current) onFootnoteElement32() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement31() (bool, error) {
+func (p *parser) callonFootnoteElement32() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement31()
+	return p.cur.onFootnoteElement32()
 }
 
-func (c *current) onFootnoteElement32() (bool, error) {
+func (c *current) onFootnoteElement33() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement32() (bool, error) {
+func (p *parser) callonFootnoteElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement32()
+	return p.cur.onFootnoteElement33()
 }
 
-func (c *current) onFootnoteElement29() (interface{}, error) {
+func (c *current) onFootnoteElement30() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement29() (interface{}, error) {
+func (p *parser) callonFootnoteElement30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement29()
+	return p.cur.onFootnoteElement30()
 }
 
-func (c *current) onFootnoteElement42() (bool, error) {
+func (c *current) onFootnoteElement43() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement42() (bool, error) {
+func (p *parser) callonFootnoteElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement42()
+	return p.cur.onFootnoteElement43()
 }
 
-func (c *current) onFootnoteElement46() (bool, error) {
+func (c *current) onFootnoteElement47() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement46() (bool, error) {
+func (p *parser) callonFootnoteElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement46()
+	return p.cur.onFootnoteElement47()
 }
 
-func (c *current) onFootnoteElement38() (interface{}, error) {
+func (c *current) onFootnoteElement39() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement38() (interface{}, error) {
+func (p *parser) callonFootnoteElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement38()
+	return p.cur.onFootnoteElement39()
 }
 
-func (c *current) onFootnoteElement55() (bool, error) {
+func (c *current) onFootnoteElement56() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement55() (bool, error) {
+func (p *parser) callonFootnoteElement56() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement55()
+	return p.cur.onFootnoteElement56()
 }
 
-func (c *current) onFootnoteElement57() (bool, error) {
+func (c *current) onFootnoteElement58() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement57() (bool, error) {
+func (p *parser) callonFootnoteElement58() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement57()
+	return p.cur.onFootnoteElement58()
 }
 
-func (c *current) onFootnoteElement59() (interface{}, error) {
+func (c *current) onFootnoteElement60() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement59() (interface{}, error) {
+func (p *parser) callonFootnoteElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement59()
+	return p.cur.onFootnoteElement60()
 }
 
-func (c *current) onFootnoteElement63() (interface{}, error) {
+func (c *current) onFootnoteElement64() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement63() (interface{}, error) {
+func (p *parser) callonFootnoteElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement63()
+	return p.cur.onFootnoteElement64()
 }
 
-func (c *current) onFootnoteElement53() (interface{}, error) {
+func (c *current) onFootnoteElement54() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement53() (interface{}, error) {
+func (p *parser) callonFootnoteElement54() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement53()
+	return p.cur.onFootnoteElement54()
 }
 
-func (c *current) onFootnoteElement72() (bool, error) {
+func (c *current) onFootnoteElement73() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement72() (bool, error) {
+func (p *parser) callonFootnoteElement73() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement72()
+	return p.cur.onFootnoteElement73()
 }
 
-func (c *current) onFootnoteElement79() (interface{}, error) {
+func (c *current) onFootnoteElement80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement79() (interface{}, error) {
+func (p *parser) callonFootnoteElement80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement79()
+	return p.cur.onFootnoteElement80()
 }
 
-func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement76(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -58040,201 +58067,201 @@ func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement75() (interface{}, error) {
+func (p *parser) callonFootnoteElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement75(stack["name"])
+	return p.cur.onFootnoteElement76(stack["name"])
 }
 
-func (c *current) onFootnoteElement89() (interface{}, error) {
+func (c *current) onFootnoteElement90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement89() (interface{}, error) {
+func (p *parser) callonFootnoteElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement89()
+	return p.cur.onFootnoteElement90()
 }
 
-func (c *current) onFootnoteElement85(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement85() (interface{}, error) {
+func (p *parser) callonFootnoteElement86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement85(stack["name"])
+	return p.cur.onFootnoteElement86(stack["name"])
 }
 
-func (c *current) onFootnoteElement99() (interface{}, error) {
+func (c *current) onFootnoteElement100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement99() (interface{}, error) {
+func (p *parser) callonFootnoteElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement99()
+	return p.cur.onFootnoteElement100()
 }
 
-func (c *current) onFootnoteElement111() (interface{}, error) {
+func (c *current) onFootnoteElement112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement111() (interface{}, error) {
+func (p *parser) callonFootnoteElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement111()
+	return p.cur.onFootnoteElement112()
 }
 
-func (c *current) onFootnoteElement113() (interface{}, error) {
+func (c *current) onFootnoteElement114() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement113() (interface{}, error) {
+func (p *parser) callonFootnoteElement114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement113()
+	return p.cur.onFootnoteElement114()
 }
 
-func (c *current) onFootnoteElement106(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement107(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement106() (interface{}, error) {
+func (p *parser) callonFootnoteElement107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement106(stack["start"])
+	return p.cur.onFootnoteElement107(stack["start"])
 }
 
-func (c *current) onFootnoteElement95(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement96(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement95() (interface{}, error) {
+func (p *parser) callonFootnoteElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement95(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement96(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement121() (interface{}, error) {
+func (c *current) onFootnoteElement122() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement121() (interface{}, error) {
+func (p *parser) callonFootnoteElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement121()
+	return p.cur.onFootnoteElement122()
 }
 
-func (c *current) onFootnoteElement133() (interface{}, error) {
+func (c *current) onFootnoteElement134() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement133() (interface{}, error) {
+func (p *parser) callonFootnoteElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement133()
+	return p.cur.onFootnoteElement134()
 }
 
-func (c *current) onFootnoteElement135() (interface{}, error) {
+func (c *current) onFootnoteElement136() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement135() (interface{}, error) {
+func (p *parser) callonFootnoteElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement135()
+	return p.cur.onFootnoteElement136()
 }
 
-func (c *current) onFootnoteElement128(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement129(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement128() (interface{}, error) {
+func (p *parser) callonFootnoteElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement128(stack["start"])
+	return p.cur.onFootnoteElement129(stack["start"])
 }
 
-func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement118(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement117() (interface{}, error) {
+func (p *parser) callonFootnoteElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement117(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement118(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement70(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement71(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement70() (interface{}, error) {
+func (p *parser) callonFootnoteElement71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement70(stack["element"])
+	return p.cur.onFootnoteElement71(stack["element"])
 }
 
-func (c *current) onFootnoteElement141() (bool, error) {
+func (c *current) onFootnoteElement142() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement141() (bool, error) {
+func (p *parser) callonFootnoteElement142() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement141()
+	return p.cur.onFootnoteElement142()
 }
 
-func (c *current) onFootnoteElement143() (interface{}, error) {
+func (c *current) onFootnoteElement144() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement143() (interface{}, error) {
+func (p *parser) callonFootnoteElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement143()
+	return p.cur.onFootnoteElement144()
 }
 
-func (c *current) onFootnoteElement139(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement140(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement139() (interface{}, error) {
+func (p *parser) callonFootnoteElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement139(stack["element"])
+	return p.cur.onFootnoteElement140(stack["element"])
 }
 
-func (c *current) onFootnoteElement145() (interface{}, error) {
+func (c *current) onFootnoteElement146() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement145() (interface{}, error) {
+func (p *parser) callonFootnoteElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement145()
+	return p.cur.onFootnoteElement146()
 }
 
-func (c *current) onFootnoteElement150() (interface{}, error) {
+func (c *current) onFootnoteElement151() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -58243,10 +58270,10 @@ func (c *current) onFootnoteElement150() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement150() (interface{}, error) {
+func (p *parser) callonFootnoteElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement150()
+	return p.cur.onFootnoteElement151()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -68524,6 +68551,17 @@ func (p *parser) callonQuotedTextElement16() (interface{}, error) {
 	return p.cur.onQuotedTextElement16()
 }
 
+func (c *current) onQuotedTextElement22() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonQuotedTextElement22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement22()
+}
+
 func (c *current) onQuotedTextElement20() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -68536,100 +68574,100 @@ func (p *parser) callonQuotedTextElement20() (interface{}, error) {
 	return p.cur.onQuotedTextElement20()
 }
 
-func (c *current) onQuotedTextElement27() (bool, error) {
+func (c *current) onQuotedTextElement28() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement27() (bool, error) {
+func (p *parser) callonQuotedTextElement28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement27()
+	return p.cur.onQuotedTextElement28()
 }
 
-func (c *current) onQuotedTextElement28() (bool, error) {
+func (c *current) onQuotedTextElement29() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement28() (bool, error) {
+func (p *parser) callonQuotedTextElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement28()
+	return p.cur.onQuotedTextElement29()
 }
 
-func (c *current) onQuotedTextElement25() (interface{}, error) {
+func (c *current) onQuotedTextElement26() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement25() (interface{}, error) {
+func (p *parser) callonQuotedTextElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement25()
+	return p.cur.onQuotedTextElement26()
 }
 
-func (c *current) onQuotedTextElement36() (bool, error) {
+func (c *current) onQuotedTextElement37() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement36() (bool, error) {
+func (p *parser) callonQuotedTextElement37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement36()
+	return p.cur.onQuotedTextElement37()
 }
 
-func (c *current) onQuotedTextElement40() (bool, error) {
+func (c *current) onQuotedTextElement41() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement40() (bool, error) {
+func (p *parser) callonQuotedTextElement41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement40()
+	return p.cur.onQuotedTextElement41()
 }
 
-func (c *current) onQuotedTextElement32() (interface{}, error) {
+func (c *current) onQuotedTextElement33() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement32() (interface{}, error) {
+func (p *parser) callonQuotedTextElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement32()
+	return p.cur.onQuotedTextElement33()
 }
 
-func (c *current) onQuotedTextElement48() (bool, error) {
+func (c *current) onQuotedTextElement49() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement48() (bool, error) {
+func (p *parser) callonQuotedTextElement49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement48()
+	return p.cur.onQuotedTextElement49()
 }
 
-func (c *current) onQuotedTextElement55() (interface{}, error) {
+func (c *current) onQuotedTextElement56() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement55() (interface{}, error) {
+func (p *parser) callonQuotedTextElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement55()
+	return p.cur.onQuotedTextElement56()
 }
 
-func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -68637,242 +68675,242 @@ func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement51() (interface{}, error) {
+func (p *parser) callonQuotedTextElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement51(stack["name"])
+	return p.cur.onQuotedTextElement52(stack["name"])
 }
 
-func (c *current) onQuotedTextElement65() (interface{}, error) {
+func (c *current) onQuotedTextElement66() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement65() (interface{}, error) {
+func (p *parser) callonQuotedTextElement66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement65()
+	return p.cur.onQuotedTextElement66()
 }
 
-func (c *current) onQuotedTextElement61(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement61() (interface{}, error) {
+func (p *parser) callonQuotedTextElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement61(stack["name"])
+	return p.cur.onQuotedTextElement62(stack["name"])
 }
 
-func (c *current) onQuotedTextElement75() (interface{}, error) {
+func (c *current) onQuotedTextElement76() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement75() (interface{}, error) {
+func (p *parser) callonQuotedTextElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement75()
+	return p.cur.onQuotedTextElement76()
 }
 
-func (c *current) onQuotedTextElement87() (interface{}, error) {
+func (c *current) onQuotedTextElement88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement87() (interface{}, error) {
+func (p *parser) callonQuotedTextElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement87()
+	return p.cur.onQuotedTextElement88()
 }
 
-func (c *current) onQuotedTextElement89() (interface{}, error) {
+func (c *current) onQuotedTextElement90() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement89() (interface{}, error) {
+func (p *parser) callonQuotedTextElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement89()
+	return p.cur.onQuotedTextElement90()
 }
 
-func (c *current) onQuotedTextElement82(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement82() (interface{}, error) {
+func (p *parser) callonQuotedTextElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement82(stack["start"])
+	return p.cur.onQuotedTextElement83(stack["start"])
 }
 
-func (c *current) onQuotedTextElement71(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement71() (interface{}, error) {
+func (p *parser) callonQuotedTextElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement71(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement97() (interface{}, error) {
+func (c *current) onQuotedTextElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement97() (interface{}, error) {
+func (p *parser) callonQuotedTextElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement97()
+	return p.cur.onQuotedTextElement98()
 }
 
-func (c *current) onQuotedTextElement109() (interface{}, error) {
+func (c *current) onQuotedTextElement110() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement109() (interface{}, error) {
+func (p *parser) callonQuotedTextElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement109()
+	return p.cur.onQuotedTextElement110()
 }
 
-func (c *current) onQuotedTextElement111() (interface{}, error) {
+func (c *current) onQuotedTextElement112() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement111() (interface{}, error) {
+func (p *parser) callonQuotedTextElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement111()
+	return p.cur.onQuotedTextElement112()
 }
 
-func (c *current) onQuotedTextElement104(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement104() (interface{}, error) {
+func (p *parser) callonQuotedTextElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement104(stack["start"])
+	return p.cur.onQuotedTextElement105(stack["start"])
 }
 
-func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement93() (interface{}, error) {
+func (p *parser) callonQuotedTextElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement93(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement46(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement46() (interface{}, error) {
+func (p *parser) callonQuotedTextElement47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement46(stack["element"])
+	return p.cur.onQuotedTextElement47(stack["element"])
 }
 
-func (c *current) onQuotedTextElement117() (interface{}, error) {
+func (c *current) onQuotedTextElement118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement117() (interface{}, error) {
+func (p *parser) callonQuotedTextElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement117()
+	return p.cur.onQuotedTextElement118()
 }
 
-func (c *current) onQuotedTextElement123() (interface{}, error) {
+func (c *current) onQuotedTextElement124() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement123() (interface{}, error) {
+func (p *parser) callonQuotedTextElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement123()
+	return p.cur.onQuotedTextElement124()
 }
 
-func (c *current) onQuotedTextElement115() (interface{}, error) {
+func (c *current) onQuotedTextElement116() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement115() (interface{}, error) {
+func (p *parser) callonQuotedTextElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement115()
+	return p.cur.onQuotedTextElement116()
 }
 
-func (c *current) onQuotedTextElement132() (bool, error) {
+func (c *current) onQuotedTextElement133() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement132() (bool, error) {
+func (p *parser) callonQuotedTextElement133() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement132()
+	return p.cur.onQuotedTextElement133()
 }
 
-func (c *current) onQuotedTextElement134() (interface{}, error) {
+func (c *current) onQuotedTextElement135() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement134() (interface{}, error) {
+func (p *parser) callonQuotedTextElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement134()
+	return p.cur.onQuotedTextElement135()
 }
 
-func (c *current) onQuotedTextElement130(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement130() (interface{}, error) {
+func (p *parser) callonQuotedTextElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement130(stack["element"])
+	return p.cur.onQuotedTextElement131(stack["element"])
 }
 
-func (c *current) onQuotedTextElement140() (interface{}, error) {
+func (c *current) onQuotedTextElement141() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement140() (interface{}, error) {
+func (p *parser) callonQuotedTextElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement140()
+	return p.cur.onQuotedTextElement141()
 }
 
-func (c *current) onQuotedTextElement136(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement136() (interface{}, error) {
+func (p *parser) callonQuotedTextElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement136(stack["ref"])
+	return p.cur.onQuotedTextElement137(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement144() (interface{}, error) {
+func (c *current) onQuotedTextElement145() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -68881,10 +68919,10 @@ func (c *current) onQuotedTextElement144() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement144() (interface{}, error) {
+func (p *parser) callonQuotedTextElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement144()
+	return p.cur.onQuotedTextElement145()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -69977,6 +70015,17 @@ func (p *parser) callonSectionTitleElement28() (interface{}, error) {
 	return p.cur.onSectionTitleElement28()
 }
 
+func (c *current) onSectionTitleElement33() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonSectionTitleElement33() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement33()
+}
+
 func (c *current) onSectionTitleElement31() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -69989,133 +70038,133 @@ func (p *parser) callonSectionTitleElement31() (interface{}, error) {
 	return p.cur.onSectionTitleElement31()
 }
 
-func (c *current) onSectionTitleElement38() (bool, error) {
+func (c *current) onSectionTitleElement39() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleElement38() (bool, error) {
+func (p *parser) callonSectionTitleElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement38()
+	return p.cur.onSectionTitleElement39()
 }
 
-func (c *current) onSectionTitleElement39() (bool, error) {
+func (c *current) onSectionTitleElement40() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement39() (bool, error) {
+func (p *parser) callonSectionTitleElement40() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement39()
+	return p.cur.onSectionTitleElement40()
 }
 
-func (c *current) onSectionTitleElement36() (interface{}, error) {
+func (c *current) onSectionTitleElement37() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleElement36() (interface{}, error) {
+func (p *parser) callonSectionTitleElement37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement36()
+	return p.cur.onSectionTitleElement37()
 }
 
-func (c *current) onSectionTitleElement48() (bool, error) {
+func (c *current) onSectionTitleElement49() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement48() (bool, error) {
+func (p *parser) callonSectionTitleElement49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement48()
+	return p.cur.onSectionTitleElement49()
 }
 
-func (c *current) onSectionTitleElement52() (bool, error) {
+func (c *current) onSectionTitleElement53() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement52() (bool, error) {
+func (p *parser) callonSectionTitleElement53() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement52()
+	return p.cur.onSectionTitleElement53()
 }
 
-func (c *current) onSectionTitleElement44() (interface{}, error) {
+func (c *current) onSectionTitleElement45() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement44() (interface{}, error) {
+func (p *parser) callonSectionTitleElement45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement44()
+	return p.cur.onSectionTitleElement45()
 }
 
-func (c *current) onSectionTitleElement63() (bool, error) {
+func (c *current) onSectionTitleElement64() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleElement63() (bool, error) {
+func (p *parser) callonSectionTitleElement64() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement63()
+	return p.cur.onSectionTitleElement64()
 }
 
-func (c *current) onSectionTitleElement65() (interface{}, error) {
+func (c *current) onSectionTitleElement66() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement65() (interface{}, error) {
+func (p *parser) callonSectionTitleElement66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement65()
+	return p.cur.onSectionTitleElement66()
 }
 
-func (c *current) onSectionTitleElement61(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement62(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement61() (interface{}, error) {
+func (p *parser) callonSectionTitleElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement61(stack["element"])
+	return p.cur.onSectionTitleElement62(stack["element"])
 }
 
-func (c *current) onSectionTitleElement70() (bool, error) {
+func (c *current) onSectionTitleElement71() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement70() (bool, error) {
+func (p *parser) callonSectionTitleElement71() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement70()
+	return p.cur.onSectionTitleElement71()
 }
 
-func (c *current) onSectionTitleElement77() (interface{}, error) {
+func (c *current) onSectionTitleElement78() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleElement78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement77()
+	return p.cur.onSectionTitleElement78()
 }
 
-func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement74(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -70123,242 +70172,242 @@ func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonSectionTitleElement73() (interface{}, error) {
+func (p *parser) callonSectionTitleElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement73(stack["name"])
+	return p.cur.onSectionTitleElement74(stack["name"])
 }
 
-func (c *current) onSectionTitleElement87() (interface{}, error) {
+func (c *current) onSectionTitleElement88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement87()
+	return p.cur.onSectionTitleElement88()
 }
 
-func (c *current) onSectionTitleElement83(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement84(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement83() (interface{}, error) {
+func (p *parser) callonSectionTitleElement84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement83(stack["name"])
+	return p.cur.onSectionTitleElement84(stack["name"])
 }
 
-func (c *current) onSectionTitleElement97() (interface{}, error) {
+func (c *current) onSectionTitleElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement97() (interface{}, error) {
+func (p *parser) callonSectionTitleElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement97()
+	return p.cur.onSectionTitleElement98()
 }
 
-func (c *current) onSectionTitleElement109() (interface{}, error) {
+func (c *current) onSectionTitleElement110() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement109()
+	return p.cur.onSectionTitleElement110()
 }
 
-func (c *current) onSectionTitleElement111() (interface{}, error) {
+func (c *current) onSectionTitleElement112() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement111() (interface{}, error) {
+func (p *parser) callonSectionTitleElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement111()
+	return p.cur.onSectionTitleElement112()
 }
 
-func (c *current) onSectionTitleElement104(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement105(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement104(stack["start"])
+	return p.cur.onSectionTitleElement105(stack["start"])
 }
 
-func (c *current) onSectionTitleElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement94(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement93() (interface{}, error) {
+func (p *parser) callonSectionTitleElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement93(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement94(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement119() (interface{}, error) {
+func (c *current) onSectionTitleElement120() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement119() (interface{}, error) {
+func (p *parser) callonSectionTitleElement120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement119()
+	return p.cur.onSectionTitleElement120()
 }
 
-func (c *current) onSectionTitleElement131() (interface{}, error) {
+func (c *current) onSectionTitleElement132() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleElement132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement131()
+	return p.cur.onSectionTitleElement132()
 }
 
-func (c *current) onSectionTitleElement133() (interface{}, error) {
+func (c *current) onSectionTitleElement134() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement133() (interface{}, error) {
+func (p *parser) callonSectionTitleElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement133()
+	return p.cur.onSectionTitleElement134()
 }
 
-func (c *current) onSectionTitleElement126(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement127(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement126(stack["start"])
+	return p.cur.onSectionTitleElement127(stack["start"])
 }
 
-func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement116(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement115() (interface{}, error) {
+func (p *parser) callonSectionTitleElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement115(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement116(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement68(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement69(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement68() (interface{}, error) {
+func (p *parser) callonSectionTitleElement69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement68(stack["element"])
+	return p.cur.onSectionTitleElement69(stack["element"])
 }
 
-func (c *current) onSectionTitleElement141() (interface{}, error) {
+func (c *current) onSectionTitleElement142() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement141() (interface{}, error) {
+func (p *parser) callonSectionTitleElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement141()
+	return p.cur.onSectionTitleElement142()
 }
 
-func (c *current) onSectionTitleElement137(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement138(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement137() (interface{}, error) {
+func (p *parser) callonSectionTitleElement138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement137(stack["ref"])
+	return p.cur.onSectionTitleElement138(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement147() (bool, error) {
+func (c *current) onSectionTitleElement148() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement147() (bool, error) {
+func (p *parser) callonSectionTitleElement148() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement147()
+	return p.cur.onSectionTitleElement148()
 }
 
-func (c *current) onSectionTitleElement157() (interface{}, error) {
+func (c *current) onSectionTitleElement158() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement157() (interface{}, error) {
+func (p *parser) callonSectionTitleElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement157()
+	return p.cur.onSectionTitleElement158()
 }
 
-func (c *current) onSectionTitleElement164() (interface{}, error) {
+func (c *current) onSectionTitleElement165() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleElement165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement164()
+	return p.cur.onSectionTitleElement165()
 }
 
-func (c *current) onSectionTitleElement160(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement161(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleElement161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement160(stack["ref"])
+	return p.cur.onSectionTitleElement161(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement170() (bool, error) {
+func (c *current) onSectionTitleElement171() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement170() (bool, error) {
+func (p *parser) callonSectionTitleElement171() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement170()
+	return p.cur.onSectionTitleElement171()
 }
 
-func (c *current) onSectionTitleElement177() (interface{}, error) {
+func (c *current) onSectionTitleElement178() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement177()
+	return p.cur.onSectionTitleElement178()
 }
 
-func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement174(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -70366,273 +70415,273 @@ func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleElement174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement173(stack["name"])
+	return p.cur.onSectionTitleElement174(stack["name"])
 }
 
-func (c *current) onSectionTitleElement187() (interface{}, error) {
+func (c *current) onSectionTitleElement188() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleElement188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement187()
+	return p.cur.onSectionTitleElement188()
 }
 
-func (c *current) onSectionTitleElement183(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement184(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleElement184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement183(stack["name"])
+	return p.cur.onSectionTitleElement184(stack["name"])
 }
 
-func (c *current) onSectionTitleElement197() (interface{}, error) {
+func (c *current) onSectionTitleElement198() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement197() (interface{}, error) {
+func (p *parser) callonSectionTitleElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement197()
+	return p.cur.onSectionTitleElement198()
 }
 
-func (c *current) onSectionTitleElement209() (interface{}, error) {
+func (c *current) onSectionTitleElement210() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement209()
+	return p.cur.onSectionTitleElement210()
 }
 
-func (c *current) onSectionTitleElement211() (interface{}, error) {
+func (c *current) onSectionTitleElement212() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleElement212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement211()
+	return p.cur.onSectionTitleElement212()
 }
 
-func (c *current) onSectionTitleElement204(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement205(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleElement205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement204(stack["start"])
+	return p.cur.onSectionTitleElement205(stack["start"])
 }
 
-func (c *current) onSectionTitleElement193(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement194(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement193() (interface{}, error) {
+func (p *parser) callonSectionTitleElement194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement193(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement194(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement219() (interface{}, error) {
+func (c *current) onSectionTitleElement220() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement219() (interface{}, error) {
+func (p *parser) callonSectionTitleElement220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement219()
+	return p.cur.onSectionTitleElement220()
 }
 
-func (c *current) onSectionTitleElement231() (interface{}, error) {
+func (c *current) onSectionTitleElement232() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleElement232() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement231()
+	return p.cur.onSectionTitleElement232()
 }
 
-func (c *current) onSectionTitleElement233() (interface{}, error) {
+func (c *current) onSectionTitleElement234() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleElement234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement233()
+	return p.cur.onSectionTitleElement234()
 }
 
-func (c *current) onSectionTitleElement226(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement227(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleElement227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement226(stack["start"])
+	return p.cur.onSectionTitleElement227(stack["start"])
 }
 
-func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement216(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement215(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement216(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement168(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement169(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement168(stack["element"])
+	return p.cur.onSectionTitleElement169(stack["element"])
 }
 
-func (c *current) onSectionTitleElement237() (interface{}, error) {
+func (c *current) onSectionTitleElement238() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement237()
+	return p.cur.onSectionTitleElement238()
 }
 
-func (c *current) onSectionTitleElement153(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement154(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement153() (interface{}, error) {
+func (p *parser) callonSectionTitleElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement153(stack["elements"])
+	return p.cur.onSectionTitleElement154(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement149(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement150(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement149() (interface{}, error) {
+func (p *parser) callonSectionTitleElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement149(stack["id"])
+	return p.cur.onSectionTitleElement150(stack["id"])
 }
 
-func (c *current) onSectionTitleElement241() (interface{}, error) {
+func (c *current) onSectionTitleElement242() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement241() (interface{}, error) {
+func (p *parser) callonSectionTitleElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement241()
+	return p.cur.onSectionTitleElement242()
 }
 
-func (c *current) onSectionTitleElement245() (interface{}, error) {
+func (c *current) onSectionTitleElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement245() (interface{}, error) {
+func (p *parser) callonSectionTitleElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement245()
+	return p.cur.onSectionTitleElement246()
 }
 
-func (c *current) onSectionTitleElement145(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement146(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement145() (interface{}, error) {
+func (p *parser) callonSectionTitleElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement145(stack["id"])
+	return p.cur.onSectionTitleElement146(stack["id"])
 }
 
-func (c *current) onSectionTitleElement256() (interface{}, error) {
+func (c *current) onSectionTitleElement257() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleElement257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement256()
+	return p.cur.onSectionTitleElement257()
 }
 
-func (c *current) onSectionTitleElement252(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement253(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleElement253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement252(stack["id"])
+	return p.cur.onSectionTitleElement253(stack["id"])
 }
 
-func (c *current) onSectionTitleElement264() (interface{}, error) {
+func (c *current) onSectionTitleElement265() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleElement265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement264()
+	return p.cur.onSectionTitleElement265()
 }
 
-func (c *current) onSectionTitleElement260(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement261(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement260() (interface{}, error) {
+func (p *parser) callonSectionTitleElement261() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement260(stack["id"])
+	return p.cur.onSectionTitleElement261(stack["id"])
 }
 
-func (c *current) onSectionTitleElement269() (interface{}, error) {
+func (c *current) onSectionTitleElement270() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -70641,10 +70690,10 @@ func (c *current) onSectionTitleElement269() (interface{}, error) {
 
 }
 
-func (p *parser) callonSectionTitleElement269() (interface{}, error) {
+func (p *parser) callonSectionTitleElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement269()
+	return p.cur.onSectionTitleElement270()
 }
 
 func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
@@ -70705,6 +70754,17 @@ func (p *parser) callonNormalGroup25() (interface{}, error) {
 	return p.cur.onNormalGroup25()
 }
 
+func (c *current) onNormalGroup31() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonNormalGroup31() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup31()
+}
+
 func (c *current) onNormalGroup29() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -70717,111 +70777,111 @@ func (p *parser) callonNormalGroup29() (interface{}, error) {
 	return p.cur.onNormalGroup29()
 }
 
-func (c *current) onNormalGroup36() (bool, error) {
+func (c *current) onNormalGroup37() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup36() (bool, error) {
+func (p *parser) callonNormalGroup37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup36()
+	return p.cur.onNormalGroup37()
 }
 
-func (c *current) onNormalGroup37() (bool, error) {
+func (c *current) onNormalGroup38() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup37() (bool, error) {
+func (p *parser) callonNormalGroup38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup37()
+	return p.cur.onNormalGroup38()
 }
 
-func (c *current) onNormalGroup34() (interface{}, error) {
+func (c *current) onNormalGroup35() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup34() (interface{}, error) {
+func (p *parser) callonNormalGroup35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup34()
+	return p.cur.onNormalGroup35()
 }
 
-func (c *current) onNormalGroup45() (bool, error) {
+func (c *current) onNormalGroup46() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup45() (bool, error) {
+func (p *parser) callonNormalGroup46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup45()
+	return p.cur.onNormalGroup46()
 }
 
-func (c *current) onNormalGroup49() (bool, error) {
+func (c *current) onNormalGroup50() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup49() (bool, error) {
+func (p *parser) callonNormalGroup50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup49()
+	return p.cur.onNormalGroup50()
 }
 
-func (c *current) onNormalGroup41() (interface{}, error) {
+func (c *current) onNormalGroup42() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup41() (interface{}, error) {
+func (p *parser) callonNormalGroup42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup41()
+	return p.cur.onNormalGroup42()
 }
 
-func (c *current) onNormalGroup55() (interface{}, error) {
+func (c *current) onNormalGroup56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup55() (interface{}, error) {
+func (p *parser) callonNormalGroup56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup55()
+	return p.cur.onNormalGroup56()
 }
 
-func (c *current) onNormalGroup62() (bool, error) {
+func (c *current) onNormalGroup63() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup62() (bool, error) {
+func (p *parser) callonNormalGroup63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup62()
+	return p.cur.onNormalGroup63()
 }
 
-func (c *current) onNormalGroup69() (interface{}, error) {
+func (c *current) onNormalGroup70() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup69() (interface{}, error) {
+func (p *parser) callonNormalGroup70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup69()
+	return p.cur.onNormalGroup70()
 }
 
-func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup66(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -70829,269 +70889,269 @@ func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup65() (interface{}, error) {
+func (p *parser) callonNormalGroup66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup65(stack["name"])
+	return p.cur.onNormalGroup66(stack["name"])
 }
 
-func (c *current) onNormalGroup79() (interface{}, error) {
+func (c *current) onNormalGroup80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup79() (interface{}, error) {
+func (p *parser) callonNormalGroup80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup79()
+	return p.cur.onNormalGroup80()
 }
 
-func (c *current) onNormalGroup75(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup75() (interface{}, error) {
+func (p *parser) callonNormalGroup76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup75(stack["name"])
+	return p.cur.onNormalGroup76(stack["name"])
 }
 
-func (c *current) onNormalGroup89() (interface{}, error) {
+func (c *current) onNormalGroup90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup89() (interface{}, error) {
+func (p *parser) callonNormalGroup90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup89()
+	return p.cur.onNormalGroup90()
 }
 
-func (c *current) onNormalGroup101() (interface{}, error) {
+func (c *current) onNormalGroup102() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup101() (interface{}, error) {
+func (p *parser) callonNormalGroup102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup101()
+	return p.cur.onNormalGroup102()
 }
 
-func (c *current) onNormalGroup103() (interface{}, error) {
+func (c *current) onNormalGroup104() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup103() (interface{}, error) {
+func (p *parser) callonNormalGroup104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup103()
+	return p.cur.onNormalGroup104()
 }
 
-func (c *current) onNormalGroup96(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup97(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup96() (interface{}, error) {
+func (p *parser) callonNormalGroup97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup96(stack["start"])
+	return p.cur.onNormalGroup97(stack["start"])
 }
 
-func (c *current) onNormalGroup85(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup86(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup85() (interface{}, error) {
+func (p *parser) callonNormalGroup86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup85(stack["name"], stack["start"])
+	return p.cur.onNormalGroup86(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup111() (interface{}, error) {
+func (c *current) onNormalGroup112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup111() (interface{}, error) {
+func (p *parser) callonNormalGroup112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup111()
+	return p.cur.onNormalGroup112()
 }
 
-func (c *current) onNormalGroup123() (interface{}, error) {
+func (c *current) onNormalGroup124() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup123() (interface{}, error) {
+func (p *parser) callonNormalGroup124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup123()
+	return p.cur.onNormalGroup124()
 }
 
-func (c *current) onNormalGroup125() (interface{}, error) {
+func (c *current) onNormalGroup126() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup125() (interface{}, error) {
+func (p *parser) callonNormalGroup126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup125()
+	return p.cur.onNormalGroup126()
 }
 
-func (c *current) onNormalGroup118(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup119(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup118() (interface{}, error) {
+func (p *parser) callonNormalGroup119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup118(stack["start"])
+	return p.cur.onNormalGroup119(stack["start"])
 }
 
-func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup108(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonNormalGroup107() (interface{}, error) {
+func (p *parser) callonNormalGroup108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup107(stack["name"], stack["start"])
+	return p.cur.onNormalGroup108(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup60(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup61(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup60() (interface{}, error) {
+func (p *parser) callonNormalGroup61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup60(stack["element"])
+	return p.cur.onNormalGroup61(stack["element"])
 }
 
-func (c *current) onNormalGroup134() (bool, error) {
+func (c *current) onNormalGroup135() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup134() (bool, error) {
+func (p *parser) callonNormalGroup135() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134()
+	return p.cur.onNormalGroup135()
 }
 
-func (c *current) onNormalGroup136() (interface{}, error) {
+func (c *current) onNormalGroup137() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup136() (interface{}, error) {
+func (p *parser) callonNormalGroup137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup137()
 }
 
-func (c *current) onNormalGroup132(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup133(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup132() (interface{}, error) {
+func (p *parser) callonNormalGroup133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup132(stack["element"])
+	return p.cur.onNormalGroup133(stack["element"])
 }
 
-func (c *current) onNormalGroup140() (bool, error) {
+func (c *current) onNormalGroup141() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup140() (bool, error) {
+func (p *parser) callonNormalGroup141() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup141()
 }
 
-func (c *current) onNormalGroup142() (bool, error) {
+func (c *current) onNormalGroup143() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup142() (bool, error) {
+func (p *parser) callonNormalGroup143() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup143()
 }
 
-func (c *current) onNormalGroup144() (interface{}, error) {
+func (c *current) onNormalGroup145() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup144() (interface{}, error) {
+func (p *parser) callonNormalGroup145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup145()
 }
 
-func (c *current) onNormalGroup148() (interface{}, error) {
+func (c *current) onNormalGroup149() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup148() (interface{}, error) {
+func (p *parser) callonNormalGroup149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup148()
+	return p.cur.onNormalGroup149()
 }
 
-func (c *current) onNormalGroup138() (interface{}, error) {
+func (c *current) onNormalGroup139() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138()
+	return p.cur.onNormalGroup139()
 }
 
-func (c *current) onNormalGroup160() (interface{}, error) {
+func (c *current) onNormalGroup161() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup160() (interface{}, error) {
+func (p *parser) callonNormalGroup161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup160()
+	return p.cur.onNormalGroup161()
 }
 
-func (c *current) onNormalGroup156(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup157(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup156() (interface{}, error) {
+func (p *parser) callonNormalGroup157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup156(stack["ref"])
+	return p.cur.onNormalGroup157(stack["ref"])
 }
 
-func (c *current) onNormalGroup164() (interface{}, error) {
+func (c *current) onNormalGroup165() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -71100,10 +71160,10 @@ func (c *current) onNormalGroup164() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup164() (interface{}, error) {
+func (p *parser) callonNormalGroup165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup164()
+	return p.cur.onNormalGroup165()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index c006ccc..0670f74 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2495,6 +2495,9 @@ SinglelineCommentContent <- AnyChars
 // a letter (not a digit) but it can have a digit just before it.
 TypographicQuote <- 
     // escaped
+    &{
+        return c.isSubstitutionEnabled(Replacements), nil
+    }
     `\'` &[\pL] {
         //log.Debug("matched escaped apostrophe")
         return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
-- 
2.43.0


From e71718fd0f92fc098628b0e4622c872282d526b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 21/76] fix: escape special characters of single plus
 passthroughs in verses and document titles

---
 pkg/renderer/sgml/render_plain_text.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 15124e2..960598b 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -129,7 +129,14 @@ func (r *plaintextRenderer) renderInlineElements(elements []interface{}) (string
 }
 
 func (r *plaintextRenderer) renderInlinePassthrough(p *types.InlinePassthrough) (string, error) {
-	return r.renderInlineElements(p.Elements)
+	content, err := r.renderInlineElements(p.Elements)
+	if err != nil {
+		return "", err
+	}
+	if p.Kind == types.SinglePlusPassthrough {
+		return r.escape(content), nil
+	}
+	return content, nil
 }
 
 func (r *plaintextRenderer) renderSymbol(s *types.Symbol) (string, error) {
-- 
2.43.0


From 1e9247d24e06ad96d7502b8f21985c62bc23ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 22/76] fix: do not discard lists and paragraphs whose lines
 cannot be attached

---
 .../document_processing_arrange_lists.go      |     2 +-
 pkg/parser/parser.go                          | 11208 ++++++++--------
 pkg/parser/parser.peg                         |     3 +-
 pkg/types/types.go                            |    20 +-
 4 files changed, 5747 insertions(+), 5486 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 6d55a19..f32acef 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -183,7 +183,7 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	// 	log.Debugf("looking-up parent for %s", spew.Sdump(element))
 	// }
 	if c, ok := element.(*types.ListContinuation); ok {
-		for i := 0; i < c.Offset; i++ {
+		for i := 0; i < c.Offset && len(s.stack) > 1; i++ { // always retain the root list
 			s.pop()
 		}
 	}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index e5af0f3..f2bfadc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90611},
+																pos: position{line: 2866, col: 12, offset: 90673},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90612},
+																	pos: position{line: 2866, col: 13, offset: 90674},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90612},
+																			pos: position{line: 2866, col: 13, offset: 90674},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90612},
+																				pos:        position{line: 2866, col: 13, offset: 90674},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90617},
+																			pos: position{line: 2866, col: 18, offset: 90679},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90617},
+																				pos:        position{line: 2866, col: 18, offset: 90679},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90611},
+																pos: position{line: 2866, col: 12, offset: 90673},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90612},
+																	pos: position{line: 2866, col: 13, offset: 90674},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90612},
+																			pos: position{line: 2866, col: 13, offset: 90674},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90612},
+																				pos:        position{line: 2866, col: 13, offset: 90674},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90617},
+																			pos: position{line: 2866, col: 18, offset: 90679},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90617},
+																				pos:        position{line: 2866, col: 18, offset: 90679},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 87879},
+														pos:        position{line: 2764, col: 13, offset: 87941},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 90845},
+													pos: position{line: 2878, col: 11, offset: 90907},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 90845},
+														pos: position{line: 2878, col: 11, offset: 90907},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 90845},
+															pos:        position{line: 2878, col: 11, offset: 90907},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2823, col: 14, offset: 89377},
+													pos: position{line: 2824, col: 14, offset: 89439},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89377},
+														pos: position{line: 2824, col: 14, offset: 89439},
 														expr: &charClassMatcher{
-															pos:        position{line: 2823, col: 14, offset: 89377},
+															pos:        position{line: 2824, col: 14, offset: 89439},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 17, offset: 89447},
+												pos: position{line: 2828, col: 17, offset: 89509},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2827, col: 17, offset: 89447},
+													pos:   position{line: 2828, col: 17, offset: 89509},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 89901},
+														pos: position{line: 2845, col: 5, offset: 89963},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 89901},
+															pos:   position{line: 2845, col: 5, offset: 89963},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 89910},
+																pos: position{line: 2845, col: 14, offset: 89972},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 89920},
+																			pos: position{line: 2846, col: 9, offset: 89982},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 89920},
+																						pos: position{line: 2846, col: 9, offset: 89982},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 89921},
+																							pos:        position{line: 2846, col: 10, offset: 89983},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 89949},
+																						pos: position{line: 2847, col: 9, offset: 90011},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89950},
+																							pos:        position{line: 2847, col: 10, offset: 90012},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90162},
+																			pos: position{line: 2850, col: 11, offset: 90224},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90162},
+																					pos:        position{line: 2850, col: 11, offset: 90224},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90170},
+																					pos: position{line: 2850, col: 19, offset: 90232},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90172},
+																								pos: position{line: 2850, col: 21, offset: 90234},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90179},
+																								pos: position{line: 2850, col: 28, offset: 90241},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90299},
+																			pos: position{line: 2853, col: 11, offset: 90361},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90299},
+																				pos:        position{line: 2853, col: 11, offset: 90361},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90611},
+																				pos: position{line: 2866, col: 12, offset: 90673},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90612},
+																					pos: position{line: 2866, col: 13, offset: 90674},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90612},
+																							pos: position{line: 2866, col: 13, offset: 90674},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90612},
+																								pos:        position{line: 2866, col: 13, offset: 90674},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90617},
+																							pos: position{line: 2866, col: 18, offset: 90679},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90617},
+																								pos:        position{line: 2866, col: 18, offset: 90679},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90611},
+																				pos: position{line: 2866, col: 12, offset: 90673},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90612},
+																					pos: position{line: 2866, col: 13, offset: 90674},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90612},
+																							pos: position{line: 2866, col: 13, offset: 90674},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90612},
+																								pos:        position{line: 2866, col: 13, offset: 90674},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90617},
+																							pos: position{line: 2866, col: 18, offset: 90679},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90617},
+																								pos:        position{line: 2866, col: 18, offset: 90679},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90611},
+																		pos: position{line: 2866, col: 12, offset: 90673},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90612},
+																			pos: position{line: 2866, col: 13, offset: 90674},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90612},
+																					pos: position{line: 2866, col: 13, offset: 90674},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90612},
+																						pos:        position{line: 2866, col: 13, offset: 90674},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90617},
+																					pos: position{line: 2866, col: 18, offset: 90679},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90617},
+																						pos:        position{line: 2866, col: 18, offset: 90679},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90611},
+																									pos: position{line: 2866, col: 12, offset: 90673},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90612},
+																										pos: position{line: 2866, col: 13, offset: 90674},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90612},
+																												pos: position{line: 2866, col: 13, offset: 90674},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90612},
+																													pos:        position{line: 2866, col: 13, offset: 90674},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90617},
+																												pos: position{line: 2866, col: 18, offset: 90679},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90617},
+																													pos:        position{line: 2866, col: 18, offset: 90679},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90611},
+																									pos: position{line: 2866, col: 12, offset: 90673},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90612},
+																										pos: position{line: 2866, col: 13, offset: 90674},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90612},
+																												pos: position{line: 2866, col: 13, offset: 90674},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90612},
+																													pos:        position{line: 2866, col: 13, offset: 90674},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90617},
+																												pos: position{line: 2866, col: 18, offset: 90679},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90617},
+																													pos:        position{line: 2866, col: 18, offset: 90679},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 12, offset: 90611},
+																							pos: position{line: 2866, col: 12, offset: 90673},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2865, col: 13, offset: 90612},
+																								pos: position{line: 2866, col: 13, offset: 90674},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2865, col: 13, offset: 90612},
+																										pos: position{line: 2866, col: 13, offset: 90674},
 																										expr: &litMatcher{
-																											pos:        position{line: 2865, col: 13, offset: 90612},
+																											pos:        position{line: 2866, col: 13, offset: 90674},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2865, col: 18, offset: 90617},
+																										pos: position{line: 2866, col: 18, offset: 90679},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 18, offset: 90617},
+																											pos:        position{line: 2866, col: 18, offset: 90679},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90611},
+														pos: position{line: 2866, col: 12, offset: 90673},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90612},
+															pos: position{line: 2866, col: 13, offset: 90674},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90612},
+																	pos: position{line: 2866, col: 13, offset: 90674},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90612},
+																		pos:        position{line: 2866, col: 13, offset: 90674},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90617},
+																	pos: position{line: 2866, col: 18, offset: 90679},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90617},
+																		pos:        position{line: 2866, col: 18, offset: 90679},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90611},
+														pos: position{line: 2866, col: 12, offset: 90673},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90612},
+															pos: position{line: 2866, col: 13, offset: 90674},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90612},
+																	pos: position{line: 2866, col: 13, offset: 90674},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90612},
+																		pos:        position{line: 2866, col: 13, offset: 90674},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90617},
+																	pos: position{line: 2866, col: 18, offset: 90679},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90617},
+																		pos:        position{line: 2866, col: 18, offset: 90679},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 12, offset: 90611},
+												pos: position{line: 2866, col: 12, offset: 90673},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2865, col: 13, offset: 90612},
+													pos: position{line: 2866, col: 13, offset: 90674},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2865, col: 13, offset: 90612},
+															pos: position{line: 2866, col: 13, offset: 90674},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 13, offset: 90612},
+																pos:        position{line: 2866, col: 13, offset: 90674},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2865, col: 18, offset: 90617},
+															pos: position{line: 2866, col: 18, offset: 90679},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 18, offset: 90617},
+																pos:        position{line: 2866, col: 18, offset: 90679},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2767, col: 14, offset: 87953},
+																		pos: position{line: 2768, col: 14, offset: 88015},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2767, col: 14, offset: 87953},
+																			pos: position{line: 2768, col: 14, offset: 88015},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2767, col: 14, offset: 87953},
+																				pos:        position{line: 2768, col: 14, offset: 88015},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 87953},
+																				pos: position{line: 2768, col: 14, offset: 88015},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 87953},
+																					pos: position{line: 2768, col: 14, offset: 88015},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 87953},
+																						pos:        position{line: 2768, col: 14, offset: 88015},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2767, col: 14, offset: 87953},
+																							pos: position{line: 2768, col: 14, offset: 88015},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2767, col: 14, offset: 87953},
+																								pos: position{line: 2768, col: 14, offset: 88015},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2767, col: 14, offset: 87953},
+																									pos:        position{line: 2768, col: 14, offset: 88015},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2767, col: 14, offset: 87953},
+																									pos: position{line: 2768, col: 14, offset: 88015},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2767, col: 14, offset: 87953},
+																										pos: position{line: 2768, col: 14, offset: 88015},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2767, col: 14, offset: 87953},
+																											pos:        position{line: 2768, col: 14, offset: 88015},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2767, col: 14, offset: 87953},
+																pos: position{line: 2768, col: 14, offset: 88015},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2767, col: 14, offset: 87953},
+																	pos: position{line: 2768, col: 14, offset: 88015},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 14, offset: 87953},
+																		pos:        position{line: 2768, col: 14, offset: 88015},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2767, col: 14, offset: 87953},
+																pos: position{line: 2768, col: 14, offset: 88015},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2767, col: 14, offset: 87953},
+																	pos: position{line: 2768, col: 14, offset: 88015},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 14, offset: 87953},
+																		pos:        position{line: 2768, col: 14, offset: 88015},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2890, col: 11, offset: 91118},
+														pos: position{line: 2891, col: 11, offset: 91180},
 														expr: &anyMatcher{
-															line: 2890, col: 13, offset: 91120,
+															line: 2891, col: 13, offset: 91182,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
+																					pos: position{line: 2874, col: 10, offset: 90846},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91182},
+																				pos: position{line: 2896, col: 8, offset: 91244},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 90955},
+																						pos: position{line: 2883, col: 12, offset: 91017},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 90956},
+																							pos: position{line: 2883, col: 13, offset: 91018},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 90956},
+																									pos:        position{line: 2883, col: 13, offset: 91018},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 90963},
+																									pos:        position{line: 2883, col: 20, offset: 91025},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 90972},
+																									pos:        position{line: 2883, col: 29, offset: 91034},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30149},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
+																							pos: position{line: 2874, col: 10, offset: 90846},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30149},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
+																							pos: position{line: 2874, col: 10, offset: 90846},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30684},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89377},
+																			pos: position{line: 2824, col: 14, offset: 89439},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89377},
+																				pos: position{line: 2824, col: 14, offset: 89439},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89377},
+																					pos:        position{line: 2824, col: 14, offset: 89439},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2890, col: 11, offset: 91118},
+																									pos: position{line: 2891, col: 11, offset: 91180},
 																									expr: &anyMatcher{
-																										line: 2890, col: 13, offset: 91120,
+																										line: 2891, col: 13, offset: 91182,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30684},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89377},
+																						pos: position{line: 2824, col: 14, offset: 89439},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89377},
+																							pos: position{line: 2824, col: 14, offset: 89439},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89377},
+																								pos:        position{line: 2824, col: 14, offset: 89439},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1785, col: 5, offset: 57667},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57605},
+																			pos: position{line: 1785, col: 5, offset: 57667},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57605},
+																					pos:   position{line: 1785, col: 5, offset: 57667},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89377},
+																						pos: position{line: 2824, col: 14, offset: 89439},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89377},
+																							pos: position{line: 2824, col: 14, offset: 89439},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89377},
+																								pos:        position{line: 2824, col: 14, offset: 89439},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57629},
+																					pos: position{line: 1786, col: 5, offset: 57691},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2718, col: 18, offset: 86374},
+											pos: position{line: 2719, col: 18, offset: 86436},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2718, col: 18, offset: 86374},
+												pos: position{line: 2719, col: 18, offset: 86436},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2719, col: 9, offset: 86384},
+														pos: position{line: 2720, col: 9, offset: 86446},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2719, col: 9, offset: 86384},
+																pos:        position{line: 2720, col: 9, offset: 86446},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 11, offset: 86420},
+																pos:        position{line: 2721, col: 11, offset: 86482},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 19, offset: 86428},
+																pos:        position{line: 2721, col: 19, offset: 86490},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 29, offset: 86438},
+																pos:        position{line: 2721, col: 29, offset: 86500},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 37, offset: 86446},
+																pos:        position{line: 2721, col: 37, offset: 86508},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 47, offset: 86456},
+																pos:        position{line: 2721, col: 47, offset: 86518},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 55, offset: 86464},
+																pos:        position{line: 2721, col: 55, offset: 86526},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2721, col: 11, offset: 86522},
+														pos: position{line: 2722, col: 11, offset: 86584},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 5, offset: 83310},
+											pos: position{line: 2610, col: 5, offset: 83372},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2609, col: 5, offset: 83310},
+												pos: position{line: 2610, col: 5, offset: 83372},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2615, col: 19, offset: 83467},
+														pos:        position{line: 2616, col: 19, offset: 83529},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2615, col: 26, offset: 83474},
+														pos: position{line: 2616, col: 26, offset: 83536},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9101,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2610, col: 5, offset: 83334},
+														pos:   position{line: 2611, col: 5, offset: 83396},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2610, col: 11, offset: 83340},
+															pos: position{line: 2611, col: 11, offset: 83402},
 															expr: &choiceExpr{
-																pos: position{line: 2610, col: 12, offset: 83341},
+																pos: position{line: 2611, col: 12, offset: 83403},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91118},
+																					pos: position{line: 2891, col: 11, offset: 91180},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91120,
+																						line: 2891, col: 13, offset: 91182,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2622, col: 5, offset: 83586},
+																		pos: position{line: 2623, col: 5, offset: 83648},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2622, col: 5, offset: 83586},
+																			pos: position{line: 2623, col: 5, offset: 83648},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2622, col: 5, offset: 83586},
+																					pos: position{line: 2623, col: 5, offset: 83648},
 																					expr: &choiceExpr{
-																						pos: position{line: 2619, col: 22, offset: 83547},
+																						pos: position{line: 2620, col: 22, offset: 83609},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2615, col: 19, offset: 83467},
+																								pos: position{line: 2616, col: 19, offset: 83529},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2615, col: 19, offset: 83467},
+																										pos:        position{line: 2616, col: 19, offset: 83529},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2615, col: 26, offset: 83474},
+																										pos: position{line: 2616, col: 26, offset: 83536},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90784},
+																											pos: position{line: 2874, col: 10, offset: 90846},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90784},
+																												pos:        position{line: 2874, col: 10, offset: 90846},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91182},
+																										pos: position{line: 2896, col: 8, offset: 91244},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 90955},
+																												pos: position{line: 2883, col: 12, offset: 91017},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 90956},
+																													pos: position{line: 2883, col: 13, offset: 91018},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 90956},
+																															pos:        position{line: 2883, col: 13, offset: 91018},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 90963},
+																															pos:        position{line: 2883, col: 20, offset: 91025},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 90972},
+																															pos:        position{line: 2883, col: 29, offset: 91034},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91132},
+																												pos: position{line: 2893, col: 8, offset: 91194},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91133,
+																													line: 2893, col: 9, offset: 91195,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2623, col: 5, offset: 83609},
+																					pos:   position{line: 2624, col: 5, offset: 83671},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2624, col: 9, offset: 83627},
+																						pos: position{line: 2625, col: 9, offset: 83689},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2624, col: 10, offset: 83628},
+																								pos: position{line: 2625, col: 10, offset: 83690},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2624, col: 10, offset: 83628},
+																									pos:   position{line: 2625, col: 10, offset: 83690},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2624, col: 17, offset: 83635},
+																										pos: position{line: 2625, col: 17, offset: 83697},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2632, col: 21, offset: 83831},
+																												pos: position{line: 2633, col: 21, offset: 83893},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2632, col: 21, offset: 83831},
+																													pos: position{line: 2633, col: 21, offset: 83893},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2632, col: 21, offset: 83831},
+																															pos:   position{line: 2633, col: 21, offset: 83893},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2632, col: 27, offset: 83837},
+																																pos: position{line: 2633, col: 27, offset: 83899},
 																																expr: &actionExpr{
-																																	pos: position{line: 2637, col: 5, offset: 83912},
+																																	pos: position{line: 2638, col: 5, offset: 83974},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2637, col: 5, offset: 83912},
+																																		pos: position{line: 2638, col: 5, offset: 83974},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2637, col: 5, offset: 83912},
+																																				pos:        position{line: 2638, col: 5, offset: 83974},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2637, col: 9, offset: 83916},
+																																				pos: position{line: 2638, col: 9, offset: 83978},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2873, col: 10, offset: 90784},
+																																					pos: position{line: 2874, col: 10, offset: 90846},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2873, col: 10, offset: 90784},
+																																						pos:        position{line: 2874, col: 10, offset: 90846},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2637, col: 16, offset: 83923},
+																																				pos:   position{line: 2638, col: 16, offset: 83985},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2643, col: 5, offset: 84123},
+																																					pos: position{line: 2644, col: 5, offset: 84185},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2643, col: 5, offset: 84123},
+																																						pos:   position{line: 2644, col: 5, offset: 84185},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84132},
+																																							pos: position{line: 2644, col: 14, offset: 84194},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2643, col: 14, offset: 84132},
+																																								pos: position{line: 2644, col: 14, offset: 84194},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2643, col: 14, offset: 84132},
+																																									pos:        position{line: 2644, col: 14, offset: 84194},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2895, col: 8, offset: 91182},
+																															pos: position{line: 2896, col: 8, offset: 91244},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2882, col: 12, offset: 90955},
+																																	pos: position{line: 2883, col: 12, offset: 91017},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2882, col: 13, offset: 90956},
+																																		pos: position{line: 2883, col: 13, offset: 91018},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 13, offset: 90956},
+																																				pos:        position{line: 2883, col: 13, offset: 91018},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 20, offset: 90963},
+																																				pos:        position{line: 2883, col: 20, offset: 91025},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 29, offset: 90972},
+																																				pos:        position{line: 2883, col: 29, offset: 91034},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2892, col: 8, offset: 91132},
+																																	pos: position{line: 2893, col: 8, offset: 91194},
 																																	expr: &anyMatcher{
-																																		line: 2892, col: 9, offset: 91133,
+																																		line: 2893, col: 9, offset: 91195,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2649, col: 24, offset: 84268},
+																												pos: position{line: 2650, col: 24, offset: 84330},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2649, col: 24, offset: 84268},
+																													pos:   position{line: 2650, col: 24, offset: 84330},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2649, col: 30, offset: 84274},
+																														pos: position{line: 2650, col: 30, offset: 84336},
 																														expr: &actionExpr{
-																															pos: position{line: 2654, col: 5, offset: 84350},
+																															pos: position{line: 2655, col: 5, offset: 84412},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2654, col: 5, offset: 84350},
+																																pos: position{line: 2655, col: 5, offset: 84412},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2654, col: 5, offset: 84350},
+																																		pos: position{line: 2655, col: 5, offset: 84412},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2619, col: 22, offset: 83547},
+																																			pos: position{line: 2620, col: 22, offset: 83609},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2615, col: 19, offset: 83467},
+																																					pos: position{line: 2616, col: 19, offset: 83529},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2615, col: 19, offset: 83467},
+																																							pos:        position{line: 2616, col: 19, offset: 83529},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2615, col: 26, offset: 83474},
+																																							pos: position{line: 2616, col: 26, offset: 83536},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2873, col: 10, offset: 90784},
+																																								pos: position{line: 2874, col: 10, offset: 90846},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2873, col: 10, offset: 90784},
+																																									pos:        position{line: 2874, col: 10, offset: 90846},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91182},
+																																							pos: position{line: 2896, col: 8, offset: 91244},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 90955},
+																																									pos: position{line: 2883, col: 12, offset: 91017},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 90956},
+																																										pos: position{line: 2883, col: 13, offset: 91018},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 90956},
+																																												pos:        position{line: 2883, col: 13, offset: 91018},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 90963},
+																																												pos:        position{line: 2883, col: 20, offset: 91025},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 90972},
+																																												pos:        position{line: 2883, col: 29, offset: 91034},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91132},
+																																									pos: position{line: 2893, col: 8, offset: 91194},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91133,
+																																										line: 2893, col: 9, offset: 91195,
 																																									},
 																																								},
 																																							},
@@ -9473,16 +9473,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2892, col: 8, offset: 91132},
+																																					pos: position{line: 2893, col: 8, offset: 91194},
 																																					expr: &anyMatcher{
-																																						line: 2892, col: 9, offset: 91133,
+																																						line: 2893, col: 9, offset: 91195,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84373},
+																																		pos: position{line: 2656, col: 5, offset: 84435},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			run: (*parser).callonDocumentFragment1209,
@@ -9490,18 +9490,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2890, col: 11, offset: 91118},
+																																						pos: position{line: 2891, col: 11, offset: 91180},
 																																						expr: &anyMatcher{
-																																							line: 2890, col: 13, offset: 91120,
+																																							line: 2891, col: 13, offset: 91182,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90784},
+																																							pos: position{line: 2874, col: 10, offset: 90846},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90784},
+																																								pos:        position{line: 2874, col: 10, offset: 90846},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91182},
+																																						pos: position{line: 2896, col: 8, offset: 91244},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 90955},
+																																								pos: position{line: 2883, col: 12, offset: 91017},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 90956},
+																																									pos: position{line: 2883, col: 13, offset: 91018},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 90956},
+																																											pos:        position{line: 2883, col: 13, offset: 91018},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 90963},
+																																											pos:        position{line: 2883, col: 20, offset: 91025},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 90972},
+																																											pos:        position{line: 2883, col: 29, offset: 91034},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91132},
+																																								pos: position{line: 2893, col: 8, offset: 91194},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91133,
+																																									line: 2893, col: 9, offset: 91195,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 5, offset: 84388},
+																																		pos:   position{line: 2657, col: 5, offset: 84450},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2656, col: 12, offset: 84395},
+																																			pos: position{line: 2657, col: 12, offset: 84457},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2673, col: 20, offset: 84859},
+																																				pos: position{line: 2674, col: 20, offset: 84921},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2673, col: 20, offset: 84859},
+																																					pos: position{line: 2674, col: 20, offset: 84921},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2673, col: 20, offset: 84859},
+																																						pos:        position{line: 2674, col: 20, offset: 84921},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2656, col: 31, offset: 84414},
+																																		pos:        position{line: 2657, col: 31, offset: 84476},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2656, col: 35, offset: 84418},
+																																		pos: position{line: 2657, col: 35, offset: 84480},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2873, col: 10, offset: 90784},
+																																			pos: position{line: 2874, col: 10, offset: 90846},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2873, col: 10, offset: 90784},
+																																				pos:        position{line: 2874, col: 10, offset: 90846},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 42, offset: 84425},
+																																		pos: position{line: 2657, col: 42, offset: 84487},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2882, col: 12, offset: 90955},
+																																			pos: position{line: 2883, col: 12, offset: 91017},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2882, col: 13, offset: 90956},
+																																				pos: position{line: 2883, col: 13, offset: 91018},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 13, offset: 90956},
+																																						pos:        position{line: 2883, col: 13, offset: 91018},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 20, offset: 90963},
+																																						pos:        position{line: 2883, col: 20, offset: 91025},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 29, offset: 90972},
+																																						pos:        position{line: 2883, col: 29, offset: 91034},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 51, offset: 84434},
+																																		pos:   position{line: 2657, col: 51, offset: 84496},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2662, col: 5, offset: 84593},
+																																			pos: position{line: 2663, col: 5, offset: 84655},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84603},
+																																				pos: position{line: 2664, col: 9, offset: 84665},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2663, col: 9, offset: 84603},
+																																					pos: position{line: 2664, col: 9, offset: 84665},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2663, col: 9, offset: 84603},
+																																							pos: position{line: 2664, col: 9, offset: 84665},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2619, col: 22, offset: 83547},
+																																								pos: position{line: 2620, col: 22, offset: 83609},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2615, col: 19, offset: 83467},
+																																										pos: position{line: 2616, col: 19, offset: 83529},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2615, col: 19, offset: 83467},
+																																												pos:        position{line: 2616, col: 19, offset: 83529},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2615, col: 26, offset: 83474},
+																																												pos: position{line: 2616, col: 26, offset: 83536},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2873, col: 10, offset: 90784},
+																																													pos: position{line: 2874, col: 10, offset: 90846},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2873, col: 10, offset: 90784},
+																																														pos:        position{line: 2874, col: 10, offset: 90846},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91182},
+																																												pos: position{line: 2896, col: 8, offset: 91244},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2882, col: 12, offset: 90955},
+																																														pos: position{line: 2883, col: 12, offset: 91017},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2882, col: 13, offset: 90956},
+																																															pos: position{line: 2883, col: 13, offset: 91018},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2892, col: 8, offset: 91132},
+																																														pos: position{line: 2893, col: 8, offset: 91194},
 																																														expr: &anyMatcher{
-																																															line: 2892, col: 9, offset: 91133,
+																																															line: 2893, col: 9, offset: 91195,
 																																														},
 																																													},
 																																												},
@@ -9702,16 +9702,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91132},
+																																										pos: position{line: 2893, col: 8, offset: 91194},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91133,
+																																											line: 2893, col: 9, offset: 91195,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2664, col: 9, offset: 84630},
+																																							pos: position{line: 2665, col: 9, offset: 84692},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								run: (*parser).callonDocumentFragment1261,
@@ -9719,18 +9719,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2890, col: 11, offset: 91118},
+																																											pos: position{line: 2891, col: 11, offset: 91180},
 																																											expr: &anyMatcher{
-																																												line: 2890, col: 13, offset: 91120,
+																																												line: 2891, col: 13, offset: 91182,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90784},
+																																												pos: position{line: 2874, col: 10, offset: 90846},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90784},
+																																													pos:        position{line: 2874, col: 10, offset: 90846},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91182},
+																																											pos: position{line: 2896, col: 8, offset: 91244},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 90955},
+																																													pos: position{line: 2883, col: 12, offset: 91017},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 90956},
+																																														pos: position{line: 2883, col: 13, offset: 91018},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91132},
+																																													pos: position{line: 2893, col: 8, offset: 91194},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91133,
+																																														line: 2893, col: 9, offset: 91195,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84649},
+																																							pos: position{line: 2666, col: 9, offset: 84711},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2665, col: 11, offset: 84651},
+																																								pos: position{line: 2666, col: 11, offset: 84713},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2665, col: 11, offset: 84651},
+																																										pos:   position{line: 2666, col: 11, offset: 84713},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2665, col: 18, offset: 84658},
+																																											pos: position{line: 2666, col: 18, offset: 84720},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2673, col: 20, offset: 84859},
+																																												pos: position{line: 2674, col: 20, offset: 84921},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2673, col: 20, offset: 84859},
+																																													pos: position{line: 2674, col: 20, offset: 84921},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2673, col: 20, offset: 84859},
+																																														pos:        position{line: 2674, col: 20, offset: 84921},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2665, col: 37, offset: 84677},
+																																										pos:        position{line: 2666, col: 37, offset: 84739},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2666, col: 9, offset: 84690},
+																																							pos:   position{line: 2667, col: 9, offset: 84752},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84699},
+																																								pos: position{line: 2667, col: 18, offset: 84761},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2666, col: 18, offset: 84699},
+																																									pos: position{line: 2667, col: 18, offset: 84761},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2666, col: 18, offset: 84699},
+																																										pos:        position{line: 2667, col: 18, offset: 84761},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2668, col: 12, offset: 84761},
+																																							pos: position{line: 2669, col: 12, offset: 84823},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91182},
+																																								pos: position{line: 2896, col: 8, offset: 91244},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2882, col: 12, offset: 90955},
+																																										pos: position{line: 2883, col: 12, offset: 91017},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2882, col: 13, offset: 90956},
+																																											pos: position{line: 2883, col: 13, offset: 91018},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 13, offset: 90956},
+																																													pos:        position{line: 2883, col: 13, offset: 91018},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 20, offset: 90963},
+																																													pos:        position{line: 2883, col: 20, offset: 91025},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 29, offset: 90972},
+																																													pos:        position{line: 2883, col: 29, offset: 91034},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91132},
+																																										pos: position{line: 2893, col: 8, offset: 91194},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91133,
+																																											line: 2893, col: 9, offset: 91195,
 																																										},
 																																									},
 																																								},
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91118},
+																											pos: position{line: 2891, col: 11, offset: 91180},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91120,
+																												line: 2891, col: 13, offset: 91182,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 22, offset: 83547},
+														pos: position{line: 2620, col: 22, offset: 83609},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2615, col: 19, offset: 83467},
+																pos: position{line: 2616, col: 19, offset: 83529},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2615, col: 19, offset: 83467},
+																		pos:        position{line: 2616, col: 19, offset: 83529},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2615, col: 26, offset: 83474},
+																		pos: position{line: 2616, col: 26, offset: 83536},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -10044,36 +10044,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2480, col: 22, offset: 79698},
+											pos: position{line: 2481, col: 22, offset: 79760},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2480, col: 22, offset: 79698},
+												pos: position{line: 2481, col: 22, offset: 79760},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2485, col: 31, offset: 79919},
+														pos:        position{line: 2486, col: 31, offset: 79981},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2485, col: 36, offset: 79924},
+														pos: position{line: 2486, col: 36, offset: 79986},
 														expr: &litMatcher{
-															pos:        position{line: 2485, col: 37, offset: 79925},
+															pos:        position{line: 2486, col: 37, offset: 79987},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2480, col: 49, offset: 79725},
+														pos:   position{line: 2481, col: 49, offset: 79787},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89310},
+															pos: position{line: 2820, col: 13, offset: 89372},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89310},
+																pos: position{line: 2820, col: 13, offset: 89372},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89310},
+																	pos:        position{line: 2820, col: 13, offset: 89372},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -10151,10 +10151,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -10229,10 +10229,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38197},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90784},
+																													pos: position{line: 2874, col: 10, offset: 90846},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90784},
+																														pos:        position{line: 2874, col: 10, offset: 90846},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91182},
+																												pos: position{line: 2896, col: 8, offset: 91244},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 90955},
+																														pos: position{line: 2883, col: 12, offset: 91017},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 90956},
+																															pos: position{line: 2883, col: 13, offset: 91018},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 90956},
+																																	pos:        position{line: 2883, col: 13, offset: 91018},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 90963},
+																																	pos:        position{line: 2883, col: 20, offset: 91025},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 90972},
+																																	pos:        position{line: 2883, col: 29, offset: 91034},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91132},
+																														pos: position{line: 2893, col: 8, offset: 91194},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91133,
+																															line: 2893, col: 9, offset: 91195,
 																														},
 																													},
 																												},
@@ -10300,10 +10300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -10515,12 +10515,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2877, col: 11, offset: 90845},
+												pos: position{line: 2878, col: 11, offset: 90907},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2877, col: 11, offset: 90845},
+													pos: position{line: 2878, col: 11, offset: 90907},
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 11, offset: 90845},
+														pos:        position{line: 2878, col: 11, offset: 90907},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -10618,25 +10618,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 90955},
+												pos: position{line: 2883, col: 12, offset: 91017},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 90956},
+													pos: position{line: 2883, col: 13, offset: 91018},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 90956},
+															pos:        position{line: 2883, col: 13, offset: 91018},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 90963},
+															pos:        position{line: 2883, col: 20, offset: 91025},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 90972},
+															pos:        position{line: 2883, col: 29, offset: 91034},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10647,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90784},
+													pos: position{line: 2874, col: 10, offset: 90846},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90784},
+														pos:        position{line: 2874, col: 10, offset: 90846},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10720,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90784},
+											pos: position{line: 2874, col: 10, offset: 90846},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90784},
+												pos:        position{line: 2874, col: 10, offset: 90846},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2895, col: 8, offset: 91182},
+										pos: position{line: 2896, col: 8, offset: 91244},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 90955},
+												pos: position{line: 2883, col: 12, offset: 91017},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 90956},
+													pos: position{line: 2883, col: 13, offset: 91018},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 90956},
+															pos:        position{line: 2883, col: 13, offset: 91018},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 90963},
+															pos:        position{line: 2883, col: 20, offset: 91025},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 90972},
+															pos:        position{line: 2883, col: 29, offset: 91034},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91132},
+												pos: position{line: 2893, col: 8, offset: 91194},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91133,
+													line: 2893, col: 9, offset: 91195,
 												},
 											},
 										},
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79244},
+										pos: position{line: 2468, col: 5, offset: 79306},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79244},
+											pos: position{line: 2468, col: 5, offset: 79306},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79244},
+													pos: position{line: 2468, col: 5, offset: 79306},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79320},
+													pos:   position{line: 2471, col: 5, offset: 79382},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79338},
+														pos: position{line: 2472, col: 9, offset: 79400},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79339},
+															pos:        position{line: 2472, col: 10, offset: 79401},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90784},
+										pos: position{line: 2874, col: 10, offset: 90846},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90784},
+											pos:        position{line: 2874, col: 10, offset: 90846},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11665,10 +11665,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90784},
+													pos: position{line: 2874, col: 10, offset: 90846},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90784},
+														pos:        position{line: 2874, col: 10, offset: 90846},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91182},
+												pos: position{line: 2896, col: 8, offset: 91244},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 90955},
+														pos: position{line: 2883, col: 12, offset: 91017},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 90956},
+															pos: position{line: 2883, col: 13, offset: 91018},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 90956},
+																	pos:        position{line: 2883, col: 13, offset: 91018},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 90963},
+																	pos:        position{line: 2883, col: 20, offset: 91025},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 90972},
+																	pos:        position{line: 2883, col: 29, offset: 91034},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11707,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91132},
+														pos: position{line: 2893, col: 8, offset: 91194},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91133,
+															line: 2893, col: 9, offset: 91195,
 														},
 													},
 												},
@@ -11723,18 +11723,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91118},
+																pos: position{line: 2891, col: 11, offset: 91180},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91120,
+																	line: 2891, col: 13, offset: 91182,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -11827,12 +11827,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 87953},
+																				pos: position{line: 2768, col: 14, offset: 88015},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 87953},
+																					pos: position{line: 2768, col: 14, offset: 88015},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 87953},
+																						pos:        position{line: 2768, col: 14, offset: 88015},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2790, col: 5, offset: 88438},
+																				pos: position{line: 2791, col: 5, offset: 88500},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2791, col: 9, offset: 88448},
+																					pos: position{line: 2792, col: 9, offset: 88510},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2791, col: 10, offset: 88449},
+																							pos:        position{line: 2792, col: 10, offset: 88511},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2793, col: 13, offset: 88546},
+																							pos: position{line: 2794, col: 13, offset: 88608},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2793, col: 13, offset: 88546},
+																									pos: position{line: 2794, col: 13, offset: 88608},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2796, col: 13, offset: 88646},
+																									pos:        position{line: 2797, col: 13, offset: 88708},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2796, col: 19, offset: 88652},
+																							pos:        position{line: 2797, col: 19, offset: 88714},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2799, col: 13, offset: 88690},
+																							pos: position{line: 2800, col: 13, offset: 88752},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2799, col: 13, offset: 88690},
+																									pos: position{line: 2800, col: 13, offset: 88752},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2802, col: 14, offset: 88783},
+																									pos:        position{line: 2803, col: 14, offset: 88845},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2804, col: 12, offset: 88827},
+																							pos: position{line: 2805, col: 12, offset: 88889},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2804, col: 12, offset: 88827},
+																									pos:        position{line: 2805, col: 12, offset: 88889},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2804, col: 16, offset: 88831},
+																									pos: position{line: 2805, col: 16, offset: 88893},
 																									expr: &litMatcher{
-																										pos:        position{line: 2804, col: 17, offset: 88832},
+																										pos:        position{line: 2805, col: 17, offset: 88894},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12031,10 +12031,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2812, col: 12, offset: 89092},
+																				pos: position{line: 2813, col: 12, offset: 89154},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 12, offset: 89092},
+																					pos:        position{line: 2813, col: 12, offset: 89154},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12052,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90784},
+													pos: position{line: 2874, col: 10, offset: 90846},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90784},
+														pos:        position{line: 2874, col: 10, offset: 90846},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12064,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91182},
+												pos: position{line: 2896, col: 8, offset: 91244},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 90955},
+														pos: position{line: 2883, col: 12, offset: 91017},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 90956},
+															pos: position{line: 2883, col: 13, offset: 91018},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 90956},
+																	pos:        position{line: 2883, col: 13, offset: 91018},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 90963},
+																	pos:        position{line: 2883, col: 20, offset: 91025},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 90972},
+																	pos:        position{line: 2883, col: 29, offset: 91034},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12094,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91132},
+														pos: position{line: 2893, col: 8, offset: 91194},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91133,
+															line: 2893, col: 9, offset: 91195,
 														},
 													},
 												},
@@ -12110,18 +12110,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91118},
+																pos: position{line: 2891, col: 11, offset: 91180},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91120,
+																	line: 2891, col: 13, offset: 91182,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12130,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12160,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -12191,10 +12191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90784},
+													pos: position{line: 2874, col: 10, offset: 90846},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90784},
+														pos:        position{line: 2874, col: 10, offset: 90846},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12203,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91182},
+												pos: position{line: 2896, col: 8, offset: 91244},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 90955},
+														pos: position{line: 2883, col: 12, offset: 91017},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 90956},
+															pos: position{line: 2883, col: 13, offset: 91018},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 90956},
+																	pos:        position{line: 2883, col: 13, offset: 91018},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 90963},
+																	pos:        position{line: 2883, col: 20, offset: 91025},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 90972},
+																	pos:        position{line: 2883, col: 29, offset: 91034},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12233,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91132},
+														pos: position{line: 2893, col: 8, offset: 91194},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91133,
+															line: 2893, col: 9, offset: 91195,
 														},
 													},
 												},
@@ -12249,18 +12249,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91118},
+																pos: position{line: 2891, col: 11, offset: 91180},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91120,
+																	line: 2891, col: 13, offset: 91182,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -12549,10 +12549,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90784},
+											pos: position{line: 2874, col: 10, offset: 90846},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90784},
+												pos:        position{line: 2874, col: 10, offset: 90846},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13084,10 +13084,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13148,10 +13148,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13191,10 +13191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90784},
+													pos: position{line: 2874, col: 10, offset: 90846},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90784},
+														pos:        position{line: 2874, col: 10, offset: 90846},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13217,10 +13217,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13275,10 +13275,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90784},
+												pos: position{line: 2874, col: 10, offset: 90846},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90784},
+													pos:        position{line: 2874, col: 10, offset: 90846},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13309,10 +13309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13342,10 +13342,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90784},
+											pos: position{line: 2874, col: 10, offset: 90846},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90784},
+												pos:        position{line: 2874, col: 10, offset: 90846},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13400,10 +13400,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90784},
+												pos: position{line: 2874, col: 10, offset: 90846},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90784},
+													pos:        position{line: 2874, col: 10, offset: 90846},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13482,12 +13482,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 87953},
+									pos: position{line: 2768, col: 14, offset: 88015},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 87953},
+										pos: position{line: 2768, col: 14, offset: 88015},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 87953},
+											pos:        position{line: 2768, col: 14, offset: 88015},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13496,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90784},
+									pos: position{line: 2874, col: 10, offset: 90846},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90784},
+										pos:        position{line: 2874, col: 10, offset: 90846},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13956,10 +13956,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90784},
+												pos: position{line: 2874, col: 10, offset: 90846},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90784},
+													pos:        position{line: 2874, col: 10, offset: 90846},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,12 +13996,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 87953},
+									pos: position{line: 2768, col: 14, offset: 88015},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 87953},
+										pos: position{line: 2768, col: 14, offset: 88015},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 87953},
+											pos:        position{line: 2768, col: 14, offset: 88015},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14010,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90784},
+									pos: position{line: 2874, col: 10, offset: 90846},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90784},
+										pos:        position{line: 2874, col: 10, offset: 90846},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14440,10 +14440,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14833,10 +14833,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90784},
+											pos: position{line: 2874, col: 10, offset: 90846},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90784},
+												pos:        position{line: 2874, col: 10, offset: 90846},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14887,12 +14887,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90436},
+										pos: position{line: 2859, col: 7, offset: 90498},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90436},
+											pos: position{line: 2859, col: 7, offset: 90498},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90436},
+												pos:        position{line: 2859, col: 7, offset: 90498},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14904,10 +14904,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90784},
+										pos: position{line: 2874, col: 10, offset: 90846},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90784},
+											pos:        position{line: 2874, col: 10, offset: 90846},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15100,12 +15100,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90436},
+										pos: position{line: 2859, col: 7, offset: 90498},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90436},
+											pos: position{line: 2859, col: 7, offset: 90498},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90436},
+												pos:        position{line: 2859, col: 7, offset: 90498},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15149,41 +15149,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 17, offset: 89447},
+								pos: position{line: 2828, col: 17, offset: 89509},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2827, col: 17, offset: 89447},
+									pos:   position{line: 2828, col: 17, offset: 89509},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 5, offset: 89901},
+										pos: position{line: 2845, col: 5, offset: 89963},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2844, col: 5, offset: 89901},
+											pos:   position{line: 2845, col: 5, offset: 89963},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2844, col: 14, offset: 89910},
+												pos: position{line: 2845, col: 14, offset: 89972},
 												expr: &choiceExpr{
-													pos: position{line: 2845, col: 9, offset: 89920},
+													pos: position{line: 2846, col: 9, offset: 89982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2845, col: 9, offset: 89920},
+															pos: position{line: 2846, col: 9, offset: 89982},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2845, col: 9, offset: 89920},
+																pos: position{line: 2846, col: 9, offset: 89982},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2845, col: 9, offset: 89920},
+																		pos: position{line: 2846, col: 9, offset: 89982},
 																		expr: &litMatcher{
-																			pos:        position{line: 2845, col: 10, offset: 89921},
+																			pos:        position{line: 2846, col: 10, offset: 89983},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2846, col: 9, offset: 89949},
+																		pos: position{line: 2847, col: 9, offset: 90011},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2846, col: 10, offset: 89950},
+																			pos:        position{line: 2847, col: 10, offset: 90012},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15194,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2849, col: 11, offset: 90162},
+															pos: position{line: 2850, col: 11, offset: 90224},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2849, col: 11, offset: 90162},
+																	pos:        position{line: 2850, col: 11, offset: 90224},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2849, col: 19, offset: 90170},
+																	pos: position{line: 2850, col: 19, offset: 90232},
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 21, offset: 90172},
+																		pos: position{line: 2850, col: 21, offset: 90234},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 21, offset: 90172},
+																				pos: position{line: 2850, col: 21, offset: 90234},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
+																					pos: position{line: 2874, col: 10, offset: 90846},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15223,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2849, col: 28, offset: 90179},
+																				pos: position{line: 2850, col: 28, offset: 90241},
 																				expr: &notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -15622,10 +15622,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90299},
+															pos: position{line: 2853, col: 11, offset: 90361},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2852, col: 11, offset: 90299},
+																pos:        position{line: 2853, col: 11, offset: 90361},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15670,12 +15670,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30806},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 14, offset: 89377},
+								pos: position{line: 2824, col: 14, offset: 89439},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 14, offset: 89377},
+									pos: position{line: 2824, col: 14, offset: 89439},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 14, offset: 89377},
+										pos:        position{line: 2824, col: 14, offset: 89439},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15685,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15715,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -15745,36 +15745,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33808},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79698},
+										pos: position{line: 2481, col: 22, offset: 79760},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79698},
+											pos: position{line: 2481, col: 22, offset: 79760},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 79919},
+													pos:        position{line: 2486, col: 31, offset: 79981},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 79924},
+													pos: position{line: 2486, col: 36, offset: 79986},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 79925},
+														pos:        position{line: 2486, col: 37, offset: 79987},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79725},
+													pos:   position{line: 2481, col: 49, offset: 79787},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89310},
+														pos: position{line: 2820, col: 13, offset: 89372},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89310},
+															pos: position{line: 2820, col: 13, offset: 89372},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89310},
+																pos:        position{line: 2820, col: 13, offset: 89372},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15784,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15814,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -15867,10 +15867,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +15879,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +15909,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -15972,10 +15972,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +15984,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16014,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -16025,9 +16025,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -16043,21 +16043,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16067,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16097,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -16155,10 +16155,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16167,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16197,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -16208,9 +16208,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -16236,36 +16236,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33931},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79698},
+										pos: position{line: 2481, col: 22, offset: 79760},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79698},
+											pos: position{line: 2481, col: 22, offset: 79760},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 79919},
+													pos:        position{line: 2486, col: 31, offset: 79981},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 79924},
+													pos: position{line: 2486, col: 36, offset: 79986},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 79925},
+														pos:        position{line: 2486, col: 37, offset: 79987},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79725},
+													pos:   position{line: 2481, col: 49, offset: 79787},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89310},
+														pos: position{line: 2820, col: 13, offset: 89372},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89310},
+															pos: position{line: 2820, col: 13, offset: 89372},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89310},
+																pos:        position{line: 2820, col: 13, offset: 89372},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16275,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16305,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -16358,10 +16358,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16370,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16400,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -16463,10 +16463,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -16516,9 +16516,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -16534,21 +16534,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16558,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16588,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -16646,10 +16646,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16688,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -16699,9 +16699,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -16745,10 +16745,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34686},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16799,10 +16799,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35291},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90784},
+																											pos: position{line: 2874, col: 10, offset: 90846},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90784},
+																												pos:        position{line: 2874, col: 10, offset: 90846},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16834,10 +16834,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35390},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90784},
+																											pos: position{line: 2874, col: 10, offset: 90846},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90784},
+																												pos:        position{line: 2874, col: 10, offset: 90846},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16869,10 +16869,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90784},
+																											pos: position{line: 2874, col: 10, offset: 90846},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90784},
+																												pos:        position{line: 2874, col: 10, offset: 90846},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16897,9 +16897,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35609},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91118},
+																										pos: position{line: 2891, col: 11, offset: 91180},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91120,
+																											line: 2891, col: 13, offset: 91182,
 																										},
 																									},
 																									&litMatcher{
@@ -16940,10 +16940,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34879},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16963,10 +16963,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16984,28 +16984,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -17031,36 +17031,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34461},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2480, col: 22, offset: 79698},
+															pos: position{line: 2481, col: 22, offset: 79760},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 22, offset: 79698},
+																pos: position{line: 2481, col: 22, offset: 79760},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2485, col: 31, offset: 79919},
+																		pos:        position{line: 2486, col: 31, offset: 79981},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2485, col: 36, offset: 79924},
+																		pos: position{line: 2486, col: 36, offset: 79986},
 																		expr: &litMatcher{
-																			pos:        position{line: 2485, col: 37, offset: 79925},
+																			pos:        position{line: 2486, col: 37, offset: 79987},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2480, col: 49, offset: 79725},
+																		pos:   position{line: 2481, col: 49, offset: 79787},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89310},
+																			pos: position{line: 2820, col: 13, offset: 89372},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89310},
+																				pos: position{line: 2820, col: 13, offset: 89372},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89310},
+																					pos:        position{line: 2820, col: 13, offset: 89372},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17070,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17100,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -17153,10 +17153,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23686},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17165,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -17258,10 +17258,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23686},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90784},
+																														pos: position{line: 2874, col: 10, offset: 90846},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90784},
+																															pos:        position{line: 2874, col: 10, offset: 90846},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17270,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91182},
+																													pos: position{line: 2896, col: 8, offset: 91244},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 90955},
+																															pos: position{line: 2883, col: 12, offset: 91017},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 90956},
+																																pos: position{line: 2883, col: 13, offset: 91018},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 90956},
+																																		pos:        position{line: 2883, col: 13, offset: 91018},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 90963},
+																																		pos:        position{line: 2883, col: 20, offset: 91025},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 90972},
+																																		pos:        position{line: 2883, col: 29, offset: 91034},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17300,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91132},
+																															pos: position{line: 2893, col: 8, offset: 91194},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91133,
+																																line: 2893, col: 9, offset: 91195,
 																															},
 																														},
 																													},
@@ -17311,9 +17311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -17329,21 +17329,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91118},
+																											pos: position{line: 2891, col: 11, offset: 91180},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91120,
+																												line: 2891, col: 13, offset: 91182,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2819, col: 13, offset: 89310},
+																												pos: position{line: 2820, col: 13, offset: 89372},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2819, col: 13, offset: 89310},
+																													pos: position{line: 2820, col: 13, offset: 89372},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2819, col: 13, offset: 89310},
+																														pos:        position{line: 2820, col: 13, offset: 89372},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -17441,10 +17441,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17453,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17483,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -17494,9 +17494,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -17522,10 +17522,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35887},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17627,10 +17627,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36518},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90784},
+																														pos: position{line: 2874, col: 10, offset: 90846},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90784},
+																															pos:        position{line: 2874, col: 10, offset: 90846},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17777,28 +17777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -17889,10 +17889,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +17901,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +17931,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -17994,10 +17994,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90784},
+															pos: position{line: 2874, col: 10, offset: 90846},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90784},
+																pos:        position{line: 2874, col: 10, offset: 90846},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18006,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18036,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -18047,36 +18047,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2480, col: 22, offset: 79698},
+											pos: position{line: 2481, col: 22, offset: 79760},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2480, col: 22, offset: 79698},
+												pos: position{line: 2481, col: 22, offset: 79760},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2485, col: 31, offset: 79919},
+														pos:        position{line: 2486, col: 31, offset: 79981},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2485, col: 36, offset: 79924},
+														pos: position{line: 2486, col: 36, offset: 79986},
 														expr: &litMatcher{
-															pos:        position{line: 2485, col: 37, offset: 79925},
+															pos:        position{line: 2486, col: 37, offset: 79987},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2480, col: 49, offset: 79725},
+														pos:   position{line: 2481, col: 49, offset: 79787},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89310},
+															pos: position{line: 2820, col: 13, offset: 89372},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89310},
+																pos: position{line: 2820, col: 13, offset: 89372},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89310},
+																	pos:        position{line: 2820, col: 13, offset: 89372},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18086,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -18169,10 +18169,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18181,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18211,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -18274,10 +18274,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18286,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18316,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -18327,9 +18327,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -18345,21 +18345,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89310},
+																									pos: position{line: 2820, col: 13, offset: 89372},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89310},
+																										pos:        position{line: 2820, col: 13, offset: 89372},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -18457,10 +18457,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
+																					pos: position{line: 2874, col: 10, offset: 90846},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18469,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91182},
+																				pos: position{line: 2896, col: 8, offset: 91244},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 90955},
+																						pos: position{line: 2883, col: 12, offset: 91017},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 90956},
+																							pos: position{line: 2883, col: 13, offset: 91018},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 90956},
+																									pos:        position{line: 2883, col: 13, offset: 91018},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 90963},
+																									pos:        position{line: 2883, col: 20, offset: 91025},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 90972},
+																									pos:        position{line: 2883, col: 29, offset: 91034},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18499,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -18510,9 +18510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -18545,12 +18545,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 90845},
+							pos: position{line: 2878, col: 11, offset: 90907},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 90845},
+								pos: position{line: 2878, col: 11, offset: 90907},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 90845},
+									pos:        position{line: 2878, col: 11, offset: 90907},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18567,28 +18567,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18597,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -18638,10 +18638,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35291},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18673,10 +18673,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35390},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18708,10 +18708,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18777,12 +18777,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39689},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2858, col: 7, offset: 90436},
+								pos: position{line: 2859, col: 7, offset: 90498},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2858, col: 7, offset: 90436},
+									pos: position{line: 2859, col: 7, offset: 90498},
 									expr: &charClassMatcher{
-										pos:        position{line: 2858, col: 7, offset: 90436},
+										pos:        position{line: 2859, col: 7, offset: 90498},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18851,12 +18851,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40149},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 87953},
+									pos: position{line: 2768, col: 14, offset: 88015},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 87953},
+										pos: position{line: 2768, col: 14, offset: 88015},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 87953},
+											pos:        position{line: 2768, col: 14, offset: 88015},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18869,10 +18869,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90784},
+									pos: position{line: 2874, col: 10, offset: 90846},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90784},
+										pos:        position{line: 2874, col: 10, offset: 90846},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +18880,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2467, col: 5, offset: 79244},
+									pos: position{line: 2468, col: 5, offset: 79306},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2467, col: 5, offset: 79244},
+										pos: position{line: 2468, col: 5, offset: 79306},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2467, col: 5, offset: 79244},
+												pos: position{line: 2468, col: 5, offset: 79306},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2470, col: 5, offset: 79320},
+												pos:   position{line: 2471, col: 5, offset: 79382},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2471, col: 9, offset: 79338},
+													pos: position{line: 2472, col: 9, offset: 79400},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2471, col: 10, offset: 79339},
+														pos:        position{line: 2472, col: 10, offset: 79401},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18992,48 +18992,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 15, offset: 40967},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89543},
+								pos: position{line: 2832, col: 13, offset: 89605},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89543},
+									pos: position{line: 2832, col: 13, offset: 89605},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89543},
+											pos:   position{line: 2832, col: 13, offset: 89605},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89550},
+												pos: position{line: 2832, col: 20, offset: 89612},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89789},
+													pos: position{line: 2840, col: 11, offset: 89851},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89790},
+														pos: position{line: 2840, col: 12, offset: 89852},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89790},
+																pos:        position{line: 2840, col: 12, offset: 89852},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89802},
+																pos:        position{line: 2840, col: 24, offset: 89864},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89815},
+																pos:        position{line: 2840, col: 37, offset: 89877},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 89826},
+																pos:        position{line: 2840, col: 48, offset: 89888},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 89837},
+																pos:        position{line: 2840, col: 59, offset: 89899},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19044,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89560},
+											pos:   position{line: 2832, col: 30, offset: 89622},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 89901},
+												pos: position{line: 2845, col: 5, offset: 89963},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 89901},
+													pos:   position{line: 2845, col: 5, offset: 89963},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 89910},
+														pos: position{line: 2845, col: 14, offset: 89972},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 89920},
+															pos: position{line: 2846, col: 9, offset: 89982},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 89920},
+																		pos: position{line: 2846, col: 9, offset: 89982},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 89921},
+																					pos:        position{line: 2846, col: 10, offset: 89983},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 89949},
+																				pos: position{line: 2847, col: 9, offset: 90011},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 89950},
+																					pos:        position{line: 2847, col: 10, offset: 90012},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19086,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90162},
+																	pos: position{line: 2850, col: 11, offset: 90224},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90162},
+																			pos:        position{line: 2850, col: 11, offset: 90224},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90170},
+																			pos: position{line: 2850, col: 19, offset: 90232},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90172},
+																				pos: position{line: 2850, col: 21, offset: 90234},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
+																							pos: position{line: 2874, col: 10, offset: 90846},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19115,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90179},
+																						pos: position{line: 2850, col: 28, offset: 90241},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -19514,10 +19514,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90299},
+																	pos: position{line: 2853, col: 11, offset: 90361},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90299},
+																		pos:        position{line: 2853, col: 11, offset: 90361},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19544,10 +19544,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 61, offset: 41013},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19556,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19586,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -19625,48 +19625,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41259},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89543},
+								pos: position{line: 2832, col: 13, offset: 89605},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89543},
+									pos: position{line: 2832, col: 13, offset: 89605},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89543},
+											pos:   position{line: 2832, col: 13, offset: 89605},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89550},
+												pos: position{line: 2832, col: 20, offset: 89612},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89789},
+													pos: position{line: 2840, col: 11, offset: 89851},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89790},
+														pos: position{line: 2840, col: 12, offset: 89852},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89790},
+																pos:        position{line: 2840, col: 12, offset: 89852},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89802},
+																pos:        position{line: 2840, col: 24, offset: 89864},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89815},
+																pos:        position{line: 2840, col: 37, offset: 89877},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 89826},
+																pos:        position{line: 2840, col: 48, offset: 89888},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 89837},
+																pos:        position{line: 2840, col: 59, offset: 89899},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19677,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89560},
+											pos:   position{line: 2832, col: 30, offset: 89622},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 89901},
+												pos: position{line: 2845, col: 5, offset: 89963},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 89901},
+													pos:   position{line: 2845, col: 5, offset: 89963},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 89910},
+														pos: position{line: 2845, col: 14, offset: 89972},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 89920},
+															pos: position{line: 2846, col: 9, offset: 89982},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 89920},
+																		pos: position{line: 2846, col: 9, offset: 89982},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 89921},
+																					pos:        position{line: 2846, col: 10, offset: 89983},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 89949},
+																				pos: position{line: 2847, col: 9, offset: 90011},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 89950},
+																					pos:        position{line: 2847, col: 10, offset: 90012},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19719,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90162},
+																	pos: position{line: 2850, col: 11, offset: 90224},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90162},
+																			pos:        position{line: 2850, col: 11, offset: 90224},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90170},
+																			pos: position{line: 2850, col: 19, offset: 90232},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90172},
+																				pos: position{line: 2850, col: 21, offset: 90234},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
+																							pos: position{line: 2874, col: 10, offset: 90846},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19748,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90179},
+																						pos: position{line: 2850, col: 28, offset: 90241},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -20147,10 +20147,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90299},
+																	pos: position{line: 2853, col: 11, offset: 90361},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90299},
+																		pos:        position{line: 2853, col: 11, offset: 90361},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20245,12 +20245,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2767, col: 14, offset: 87953},
+									pos: position{line: 2768, col: 14, offset: 88015},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 87953},
+										pos: position{line: 2768, col: 14, offset: 88015},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 87953},
+											pos:        position{line: 2768, col: 14, offset: 88015},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20328,21 +20328,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42545},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88026},
+										pos: position{line: 2773, col: 5, offset: 88088},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88026},
+											pos: position{line: 2773, col: 5, offset: 88088},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88026},
+													pos:   position{line: 2773, col: 5, offset: 88088},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88032},
+														pos: position{line: 2773, col: 11, offset: 88094},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88032},
+															pos: position{line: 2773, col: 11, offset: 88094},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88032},
+																pos:        position{line: 2773, col: 11, offset: 88094},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20352,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88090},
+													pos: position{line: 2776, col: 5, offset: 88152},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88101},
+														pos: position{line: 2777, col: 9, offset: 88163},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88101},
+																pos:        position{line: 2777, col: 9, offset: 88163},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88150},
+																pos: position{line: 2778, col: 9, offset: 88212},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88230},
+													pos: position{line: 2782, col: 5, offset: 88292},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88241},
+														pos: position{line: 2783, col: 9, offset: 88303},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88241},
+																pos:        position{line: 2783, col: 9, offset: 88303},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 13, offset: 88245},
+																pos:        position{line: 2783, col: 13, offset: 88307},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20394,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 90845},
+										pos: position{line: 2878, col: 11, offset: 90907},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 90845},
+											pos: position{line: 2878, col: 11, offset: 90907},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 90845},
+												pos:        position{line: 2878, col: 11, offset: 90907},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20408,25 +20408,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80415},
+										pos: position{line: 2499, col: 5, offset: 80477},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80415},
+											pos: position{line: 2499, col: 5, offset: 80477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80415},
+													pos: position{line: 2499, col: 5, offset: 80477},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80486},
+													pos:        position{line: 2502, col: 5, offset: 80548},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80491},
+													pos: position{line: 2502, col: 10, offset: 80553},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80492},
+														pos:        position{line: 2502, col: 11, offset: 80554},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20437,29 +20437,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80684},
+										pos: position{line: 2508, col: 5, offset: 80746},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80684},
+											pos: position{line: 2508, col: 5, offset: 80746},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80684},
+													pos: position{line: 2508, col: 5, offset: 80746},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80755},
+													pos: position{line: 2511, col: 5, offset: 80817},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 80880},
+													pos:        position{line: 2515, col: 5, offset: 80942},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 80884},
+													pos: position{line: 2515, col: 9, offset: 80946},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 80885},
+														pos:        position{line: 2515, col: 10, offset: 80947},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20478,27 +20478,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88438},
+										pos: position{line: 2791, col: 5, offset: 88500},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88448},
+											pos: position{line: 2792, col: 9, offset: 88510},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88449},
+													pos:        position{line: 2792, col: 10, offset: 88511},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88546},
+													pos: position{line: 2794, col: 13, offset: 88608},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88546},
+															pos: position{line: 2794, col: 13, offset: 88608},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88646},
+															pos:        position{line: 2797, col: 13, offset: 88708},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20506,20 +20506,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88652},
+													pos:        position{line: 2797, col: 19, offset: 88714},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88690},
+													pos: position{line: 2800, col: 13, offset: 88752},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88690},
+															pos: position{line: 2800, col: 13, offset: 88752},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88783},
+															pos:        position{line: 2803, col: 14, offset: 88845},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20528,18 +20528,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88827},
+													pos: position{line: 2805, col: 12, offset: 88889},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88827},
+															pos:        position{line: 2805, col: 12, offset: 88889},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88831},
+															pos: position{line: 2805, col: 16, offset: 88893},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88832},
+																pos:        position{line: 2805, col: 17, offset: 88894},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20577,10 +20577,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37589},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20591,28 +20591,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37596},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20621,9 +20621,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -20979,23 +20979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79244},
+										pos: position{line: 2468, col: 5, offset: 79306},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79244},
+											pos: position{line: 2468, col: 5, offset: 79306},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79244},
+													pos: position{line: 2468, col: 5, offset: 79306},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79320},
+													pos:   position{line: 2471, col: 5, offset: 79382},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79338},
+														pos: position{line: 2472, col: 9, offset: 79400},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79339},
+															pos:        position{line: 2472, col: 10, offset: 79401},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21007,25 +21007,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 90955},
+										pos: position{line: 2883, col: 12, offset: 91017},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 90956},
+											pos: position{line: 2883, col: 13, offset: 91018},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 90956},
+													pos:        position{line: 2883, col: 13, offset: 91018},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 90963},
+													pos:        position{line: 2883, col: 20, offset: 91025},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 90972},
+													pos:        position{line: 2883, col: 29, offset: 91034},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21034,10 +21034,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89092},
+										pos: position{line: 2813, col: 12, offset: 89154},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89092},
+											pos:        position{line: 2813, col: 12, offset: 89154},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21169,55 +21169,55 @@ var g = &grammar{
 									pos:   position{line: 1406, col: 5, offset: 45251},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89670},
+										pos: position{line: 2836, col: 23, offset: 89732},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89670},
+											pos: position{line: 2836, col: 23, offset: 89732},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89670},
+													pos: position{line: 2836, col: 23, offset: 89732},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89671},
+														pos:        position{line: 2836, col: 24, offset: 89733},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89675},
+													pos:   position{line: 2836, col: 28, offset: 89737},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89789},
+														pos: position{line: 2840, col: 11, offset: 89851},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89790},
+															pos: position{line: 2840, col: 12, offset: 89852},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89790},
+																	pos:        position{line: 2840, col: 12, offset: 89852},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89802},
+																	pos:        position{line: 2840, col: 24, offset: 89864},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89815},
+																	pos:        position{line: 2840, col: 37, offset: 89877},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89826},
+																	pos:        position{line: 2840, col: 48, offset: 89888},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 89837},
+																	pos:        position{line: 2840, col: 59, offset: 89899},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21227,38 +21227,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89691},
+													pos:   position{line: 2836, col: 44, offset: 89753},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 89901},
+														pos: position{line: 2845, col: 5, offset: 89963},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 89901},
+															pos:   position{line: 2845, col: 5, offset: 89963},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 89910},
+																pos: position{line: 2845, col: 14, offset: 89972},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 89920},
+																			pos: position{line: 2846, col: 9, offset: 89982},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 89920},
+																						pos: position{line: 2846, col: 9, offset: 89982},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 89921},
+																							pos:        position{line: 2846, col: 10, offset: 89983},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 89949},
+																						pos: position{line: 2847, col: 9, offset: 90011},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89950},
+																							pos:        position{line: 2847, col: 10, offset: 90012},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21269,27 +21269,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90162},
+																			pos: position{line: 2850, col: 11, offset: 90224},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90162},
+																					pos:        position{line: 2850, col: 11, offset: 90224},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90170},
+																					pos: position{line: 2850, col: 19, offset: 90232},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90172},
+																								pos: position{line: 2850, col: 21, offset: 90234},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21298,11 +21298,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90179},
+																								pos: position{line: 2850, col: 28, offset: 90241},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -21697,10 +21697,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90299},
+																			pos: position{line: 2853, col: 11, offset: 90361},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90299},
+																				pos:        position{line: 2853, col: 11, offset: 90361},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21875,48 +21875,48 @@ var g = &grammar{
 									pos:   position{line: 1419, col: 17, offset: 45666},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89543},
+										pos: position{line: 2832, col: 13, offset: 89605},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89543},
+											pos: position{line: 2832, col: 13, offset: 89605},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89543},
+													pos:   position{line: 2832, col: 13, offset: 89605},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89550},
+														pos: position{line: 2832, col: 20, offset: 89612},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89789},
+															pos: position{line: 2840, col: 11, offset: 89851},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89790},
+																pos: position{line: 2840, col: 12, offset: 89852},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89790},
+																		pos:        position{line: 2840, col: 12, offset: 89852},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89802},
+																		pos:        position{line: 2840, col: 24, offset: 89864},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89815},
+																		pos:        position{line: 2840, col: 37, offset: 89877},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 89826},
+																		pos:        position{line: 2840, col: 48, offset: 89888},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 89837},
+																		pos:        position{line: 2840, col: 59, offset: 89899},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21927,38 +21927,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89560},
+													pos:   position{line: 2832, col: 30, offset: 89622},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 89901},
+														pos: position{line: 2845, col: 5, offset: 89963},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 89901},
+															pos:   position{line: 2845, col: 5, offset: 89963},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 89910},
+																pos: position{line: 2845, col: 14, offset: 89972},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 89920},
+																			pos: position{line: 2846, col: 9, offset: 89982},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 89920},
+																						pos: position{line: 2846, col: 9, offset: 89982},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 89921},
+																							pos:        position{line: 2846, col: 10, offset: 89983},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 89949},
+																						pos: position{line: 2847, col: 9, offset: 90011},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89950},
+																							pos:        position{line: 2847, col: 10, offset: 90012},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21969,27 +21969,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90162},
+																			pos: position{line: 2850, col: 11, offset: 90224},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90162},
+																					pos:        position{line: 2850, col: 11, offset: 90224},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90170},
+																					pos: position{line: 2850, col: 19, offset: 90232},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90172},
+																								pos: position{line: 2850, col: 21, offset: 90234},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21998,11 +21998,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90179},
+																								pos: position{line: 2850, col: 28, offset: 90241},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -22397,10 +22397,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90299},
+																			pos: position{line: 2853, col: 11, offset: 90361},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90299},
+																				pos:        position{line: 2853, col: 11, offset: 90361},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22443,48 +22443,48 @@ var g = &grammar{
 									pos:   position{line: 1424, col: 13, offset: 45833},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89543},
+										pos: position{line: 2832, col: 13, offset: 89605},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89543},
+											pos: position{line: 2832, col: 13, offset: 89605},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89543},
+													pos:   position{line: 2832, col: 13, offset: 89605},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89550},
+														pos: position{line: 2832, col: 20, offset: 89612},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89789},
+															pos: position{line: 2840, col: 11, offset: 89851},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89790},
+																pos: position{line: 2840, col: 12, offset: 89852},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89790},
+																		pos:        position{line: 2840, col: 12, offset: 89852},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89802},
+																		pos:        position{line: 2840, col: 24, offset: 89864},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89815},
+																		pos:        position{line: 2840, col: 37, offset: 89877},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 89826},
+																		pos:        position{line: 2840, col: 48, offset: 89888},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 89837},
+																		pos:        position{line: 2840, col: 59, offset: 89899},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22495,38 +22495,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89560},
+													pos:   position{line: 2832, col: 30, offset: 89622},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 89901},
+														pos: position{line: 2845, col: 5, offset: 89963},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 89901},
+															pos:   position{line: 2845, col: 5, offset: 89963},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 89910},
+																pos: position{line: 2845, col: 14, offset: 89972},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 89920},
+																			pos: position{line: 2846, col: 9, offset: 89982},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 89920},
+																						pos: position{line: 2846, col: 9, offset: 89982},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 89921},
+																							pos:        position{line: 2846, col: 10, offset: 89983},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 89949},
+																						pos: position{line: 2847, col: 9, offset: 90011},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89950},
+																							pos:        position{line: 2847, col: 10, offset: 90012},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22537,27 +22537,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90162},
+																			pos: position{line: 2850, col: 11, offset: 90224},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90162},
+																					pos:        position{line: 2850, col: 11, offset: 90224},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90170},
+																					pos: position{line: 2850, col: 19, offset: 90232},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90172},
+																								pos: position{line: 2850, col: 21, offset: 90234},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22566,11 +22566,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90179},
+																								pos: position{line: 2850, col: 28, offset: 90241},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -22965,10 +22965,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90299},
+																			pos: position{line: 2853, col: 11, offset: 90361},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90299},
+																				pos:        position{line: 2853, col: 11, offset: 90361},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23020,55 +23020,55 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 9, offset: 46142},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89670},
+										pos: position{line: 2836, col: 23, offset: 89732},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89670},
+											pos: position{line: 2836, col: 23, offset: 89732},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89670},
+													pos: position{line: 2836, col: 23, offset: 89732},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89671},
+														pos:        position{line: 2836, col: 24, offset: 89733},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89675},
+													pos:   position{line: 2836, col: 28, offset: 89737},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89789},
+														pos: position{line: 2840, col: 11, offset: 89851},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89790},
+															pos: position{line: 2840, col: 12, offset: 89852},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89790},
+																	pos:        position{line: 2840, col: 12, offset: 89852},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89802},
+																	pos:        position{line: 2840, col: 24, offset: 89864},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89815},
+																	pos:        position{line: 2840, col: 37, offset: 89877},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89826},
+																	pos:        position{line: 2840, col: 48, offset: 89888},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 89837},
+																	pos:        position{line: 2840, col: 59, offset: 89899},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23078,38 +23078,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89691},
+													pos:   position{line: 2836, col: 44, offset: 89753},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 89901},
+														pos: position{line: 2845, col: 5, offset: 89963},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 89901},
+															pos:   position{line: 2845, col: 5, offset: 89963},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 89910},
+																pos: position{line: 2845, col: 14, offset: 89972},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 89920},
+																			pos: position{line: 2846, col: 9, offset: 89982},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 89920},
+																						pos: position{line: 2846, col: 9, offset: 89982},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 89921},
+																							pos:        position{line: 2846, col: 10, offset: 89983},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 89949},
+																						pos: position{line: 2847, col: 9, offset: 90011},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89950},
+																							pos:        position{line: 2847, col: 10, offset: 90012},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23120,27 +23120,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90162},
+																			pos: position{line: 2850, col: 11, offset: 90224},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90162},
+																					pos:        position{line: 2850, col: 11, offset: 90224},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90170},
+																					pos: position{line: 2850, col: 19, offset: 90232},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90172},
+																								pos: position{line: 2850, col: 21, offset: 90234},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23149,11 +23149,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90179},
+																								pos: position{line: 2850, col: 28, offset: 90241},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -23548,10 +23548,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90299},
+																			pos: position{line: 2853, col: 11, offset: 90361},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90299},
+																				pos:        position{line: 2853, col: 11, offset: 90361},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23591,55 +23591,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46312},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89670},
+										pos: position{line: 2836, col: 23, offset: 89732},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89670},
+											pos: position{line: 2836, col: 23, offset: 89732},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89670},
+													pos: position{line: 2836, col: 23, offset: 89732},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89671},
+														pos:        position{line: 2836, col: 24, offset: 89733},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89675},
+													pos:   position{line: 2836, col: 28, offset: 89737},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89789},
+														pos: position{line: 2840, col: 11, offset: 89851},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89790},
+															pos: position{line: 2840, col: 12, offset: 89852},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89790},
+																	pos:        position{line: 2840, col: 12, offset: 89852},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89802},
+																	pos:        position{line: 2840, col: 24, offset: 89864},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89815},
+																	pos:        position{line: 2840, col: 37, offset: 89877},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89826},
+																	pos:        position{line: 2840, col: 48, offset: 89888},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 89837},
+																	pos:        position{line: 2840, col: 59, offset: 89899},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23649,38 +23649,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89691},
+													pos:   position{line: 2836, col: 44, offset: 89753},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 89901},
+														pos: position{line: 2845, col: 5, offset: 89963},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 89901},
+															pos:   position{line: 2845, col: 5, offset: 89963},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 89910},
+																pos: position{line: 2845, col: 14, offset: 89972},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 89920},
+																	pos: position{line: 2846, col: 9, offset: 89982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 89920},
+																			pos: position{line: 2846, col: 9, offset: 89982},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 89920},
+																				pos: position{line: 2846, col: 9, offset: 89982},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 89920},
+																						pos: position{line: 2846, col: 9, offset: 89982},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 89921},
+																							pos:        position{line: 2846, col: 10, offset: 89983},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 89949},
+																						pos: position{line: 2847, col: 9, offset: 90011},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89950},
+																							pos:        position{line: 2847, col: 10, offset: 90012},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23691,27 +23691,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90162},
+																			pos: position{line: 2850, col: 11, offset: 90224},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90162},
+																					pos:        position{line: 2850, col: 11, offset: 90224},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90170},
+																					pos: position{line: 2850, col: 19, offset: 90232},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90172},
+																						pos: position{line: 2850, col: 21, offset: 90234},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90172},
+																								pos: position{line: 2850, col: 21, offset: 90234},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23720,11 +23720,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90179},
+																								pos: position{line: 2850, col: 28, offset: 90241},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -24119,10 +24119,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90299},
+																			pos: position{line: 2853, col: 11, offset: 90361},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90299},
+																				pos:        position{line: 2853, col: 11, offset: 90361},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24188,10 +24188,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24358,12 +24358,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24406,28 +24406,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24436,9 +24436,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -24468,10 +24468,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24512,12 +24512,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24589,12 +24589,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 90845},
+																			pos: position{line: 2878, col: 11, offset: 90907},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 90845},
+																				pos:        position{line: 2878, col: 11, offset: 90907},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24638,28 +24638,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24668,9 +24668,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -24728,12 +24728,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24776,28 +24776,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24806,9 +24806,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -24873,28 +24873,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1662, col: 35, offset: 53866},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24903,9 +24903,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -24968,10 +24968,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1680, col: 9, offset: 54371},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24980,28 +24980,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25010,9 +25010,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -25026,18 +25026,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25046,28 +25046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25076,9 +25076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -25097,12 +25097,12 @@ var g = &grammar{
 																	pos: position{line: 1687, col: 9, offset: 54519},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 90845},
+																			pos: position{line: 2878, col: 11, offset: 90907},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 90845},
+																				pos: position{line: 2878, col: 11, offset: 90907},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90845},
+																					pos:        position{line: 2878, col: 11, offset: 90907},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25129,28 +25129,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25159,9 +25159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -25219,9 +25219,9 @@ var g = &grammar{
 					pos: position{line: 1487, col: 5, offset: 48062},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&labeledExpr{
@@ -25245,18 +25245,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91118},
+																	pos: position{line: 2891, col: 11, offset: 91180},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91120,
+																		line: 2891, col: 13, offset: 91182,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25265,28 +25265,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25295,9 +25295,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -25330,10 +25330,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25500,12 +25500,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25548,28 +25548,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25578,9 +25578,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -25610,10 +25610,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25654,12 +25654,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25731,12 +25731,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 90845},
+																									pos: position{line: 2878, col: 11, offset: 90907},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 90845},
+																										pos:        position{line: 2878, col: 11, offset: 90907},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25780,28 +25780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25810,9 +25810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -25870,12 +25870,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25918,28 +25918,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25948,9 +25948,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -26015,28 +26015,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26045,9 +26045,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -26110,10 +26110,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1680, col: 9, offset: 54371},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26122,28 +26122,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26152,9 +26152,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -26168,18 +26168,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91118},
+																													pos: position{line: 2891, col: 11, offset: 91180},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91120,
+																														line: 2891, col: 13, offset: 91182,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90784},
+																														pos: position{line: 2874, col: 10, offset: 90846},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90784},
+																															pos:        position{line: 2874, col: 10, offset: 90846},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26188,28 +26188,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91182},
+																													pos: position{line: 2896, col: 8, offset: 91244},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 90955},
+																															pos: position{line: 2883, col: 12, offset: 91017},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 90956},
+																																pos: position{line: 2883, col: 13, offset: 91018},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 90956},
+																																		pos:        position{line: 2883, col: 13, offset: 91018},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 90963},
+																																		pos:        position{line: 2883, col: 20, offset: 91025},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 90972},
+																																		pos:        position{line: 2883, col: 29, offset: 91034},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26218,9 +26218,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91132},
+																															pos: position{line: 2893, col: 8, offset: 91194},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91133,
+																																line: 2893, col: 9, offset: 91195,
 																															},
 																														},
 																													},
@@ -26239,12 +26239,12 @@ var g = &grammar{
 																							pos: position{line: 1687, col: 9, offset: 54519},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 90845},
+																									pos: position{line: 2878, col: 11, offset: 90907},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 90845},
+																										pos: position{line: 2878, col: 11, offset: 90907},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 90845},
+																											pos:        position{line: 2878, col: 11, offset: 90907},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26271,28 +26271,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26301,9 +26301,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -26364,10 +26364,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26534,12 +26534,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26582,28 +26582,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26612,9 +26612,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -26644,10 +26644,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26688,12 +26688,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26765,12 +26765,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 90845},
+																									pos: position{line: 2878, col: 11, offset: 90907},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 90845},
+																										pos:        position{line: 2878, col: 11, offset: 90907},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26814,28 +26814,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26844,9 +26844,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -26904,12 +26904,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26952,28 +26952,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26982,9 +26982,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -27049,28 +27049,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27079,9 +27079,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -27144,10 +27144,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1680, col: 9, offset: 54371},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27156,28 +27156,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27186,9 +27186,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -27202,18 +27202,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91118},
+																													pos: position{line: 2891, col: 11, offset: 91180},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91120,
+																														line: 2891, col: 13, offset: 91182,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90784},
+																														pos: position{line: 2874, col: 10, offset: 90846},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90784},
+																															pos:        position{line: 2874, col: 10, offset: 90846},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27222,28 +27222,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91182},
+																													pos: position{line: 2896, col: 8, offset: 91244},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 90955},
+																															pos: position{line: 2883, col: 12, offset: 91017},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 90956},
+																																pos: position{line: 2883, col: 13, offset: 91018},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 90956},
+																																		pos:        position{line: 2883, col: 13, offset: 91018},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 90963},
+																																		pos:        position{line: 2883, col: 20, offset: 91025},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 90972},
+																																		pos:        position{line: 2883, col: 29, offset: 91034},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27252,9 +27252,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91132},
+																															pos: position{line: 2893, col: 8, offset: 91194},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91133,
+																																line: 2893, col: 9, offset: 91195,
 																															},
 																														},
 																													},
@@ -27273,12 +27273,12 @@ var g = &grammar{
 																							pos: position{line: 1687, col: 9, offset: 54519},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 90845},
+																									pos: position{line: 2878, col: 11, offset: 90907},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 90845},
+																										pos: position{line: 2878, col: 11, offset: 90907},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 90845},
+																											pos:        position{line: 2878, col: 11, offset: 90907},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27305,28 +27305,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27335,9 +27335,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -27362,36 +27362,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79698},
+										pos: position{line: 2481, col: 22, offset: 79760},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79698},
+											pos: position{line: 2481, col: 22, offset: 79760},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 79919},
+													pos:        position{line: 2486, col: 31, offset: 79981},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 79924},
+													pos: position{line: 2486, col: 36, offset: 79986},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 79925},
+														pos:        position{line: 2486, col: 37, offset: 79987},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79725},
+													pos:   position{line: 2481, col: 49, offset: 79787},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89310},
+														pos: position{line: 2820, col: 13, offset: 89372},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89310},
+															pos: position{line: 2820, col: 13, offset: 89372},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89310},
+																pos:        position{line: 2820, col: 13, offset: 89372},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27401,28 +27401,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27431,9 +27431,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -27456,18 +27456,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91118},
+																	pos: position{line: 2891, col: 11, offset: 91180},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91120,
+																		line: 2891, col: 13, offset: 91182,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27476,28 +27476,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27506,9 +27506,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -27531,10 +27531,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1536, col: 31, offset: 49640},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27543,25 +27543,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27583,10 +27583,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27753,12 +27753,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27781,10 +27781,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27825,12 +27825,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27881,12 +27881,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27947,28 +27947,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1662, col: 35, offset: 53866},
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -27977,9 +27977,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -28036,7 +28036,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2763, col: 13, offset: 87879},
+																		pos:        position{line: 2764, col: 13, offset: 87941},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28086,10 +28086,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28098,28 +28098,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28128,9 +28128,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28175,10 +28175,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28187,28 +28187,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28217,9 +28217,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28260,10 +28260,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28272,28 +28272,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28302,9 +28302,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28349,10 +28349,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28361,28 +28361,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28391,9 +28391,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28438,10 +28438,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28450,28 +28450,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28480,9 +28480,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28527,10 +28527,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28539,28 +28539,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28569,9 +28569,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28616,10 +28616,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28628,28 +28628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28658,9 +28658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28705,10 +28705,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28717,28 +28717,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,9 +28747,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28794,10 +28794,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28806,28 +28806,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28836,9 +28836,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -28857,12 +28857,12 @@ var g = &grammar{
 													pos:   position{line: 1512, col: 5, offset: 49008},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 14, offset: 89377},
+														pos: position{line: 2824, col: 14, offset: 89439},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2823, col: 14, offset: 89377},
+															pos: position{line: 2824, col: 14, offset: 89439},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 14, offset: 89377},
+																pos:        position{line: 2824, col: 14, offset: 89439},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28872,28 +28872,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28902,9 +28902,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -28939,10 +28939,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1529, col: 13, offset: 49432},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90784},
+												pos: position{line: 2874, col: 10, offset: 90846},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90784},
+													pos:        position{line: 2874, col: 10, offset: 90846},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28951,25 +28951,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2882, col: 12, offset: 90955},
+											pos: position{line: 2883, col: 12, offset: 91017},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2882, col: 13, offset: 90956},
+												pos: position{line: 2883, col: 13, offset: 91018},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2882, col: 13, offset: 90956},
+														pos:        position{line: 2883, col: 13, offset: 91018},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 20, offset: 90963},
+														pos:        position{line: 2883, col: 20, offset: 91025},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 29, offset: 90972},
+														pos:        position{line: 2883, col: 29, offset: 91034},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28990,10 +28990,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1536, col: 31, offset: 49640},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29002,25 +29002,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2882, col: 12, offset: 90955},
+							pos: position{line: 2883, col: 12, offset: 91017},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2882, col: 13, offset: 90956},
+								pos: position{line: 2883, col: 13, offset: 91018},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2882, col: 13, offset: 90956},
+										pos:        position{line: 2883, col: 13, offset: 91018},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2882, col: 20, offset: 90963},
+										pos:        position{line: 2883, col: 20, offset: 91025},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2882, col: 29, offset: 90972},
+										pos:        position{line: 2883, col: 29, offset: 91034},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29053,9 +29053,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49727},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
@@ -29081,10 +29081,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29251,12 +29251,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29299,28 +29299,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29329,9 +29329,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -29361,10 +29361,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29405,12 +29405,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29482,12 +29482,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 90845},
+																			pos: position{line: 2878, col: 11, offset: 90907},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 90845},
+																				pos:        position{line: 2878, col: 11, offset: 90907},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29531,28 +29531,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29561,9 +29561,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -29621,12 +29621,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29669,28 +29669,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29699,9 +29699,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -29766,28 +29766,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1662, col: 35, offset: 53866},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29796,9 +29796,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -29861,10 +29861,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1680, col: 9, offset: 54371},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29873,28 +29873,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29903,9 +29903,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -29919,18 +29919,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91118},
+																							pos: position{line: 2891, col: 11, offset: 91180},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91120,
+																								line: 2891, col: 13, offset: 91182,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29939,28 +29939,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29969,9 +29969,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -29990,12 +29990,12 @@ var g = &grammar{
 																	pos: position{line: 1687, col: 9, offset: 54519},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 90845},
+																			pos: position{line: 2878, col: 11, offset: 90907},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 90845},
+																				pos: position{line: 2878, col: 11, offset: 90907},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90845},
+																					pos:        position{line: 2878, col: 11, offset: 90907},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30022,28 +30022,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30052,9 +30052,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -30095,18 +30095,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2890, col: 11, offset: 91118},
+													pos: position{line: 2891, col: 11, offset: 91180},
 													expr: &anyMatcher{
-														line: 2890, col: 13, offset: 91120,
+														line: 2891, col: 13, offset: 91182,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30115,28 +30115,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30145,9 +30145,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -30212,10 +30212,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30224,28 +30224,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30254,9 +30254,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -30317,10 +30317,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30329,28 +30329,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30359,9 +30359,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -30412,10 +30412,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30424,28 +30424,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30454,9 +30454,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -30517,10 +30517,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30529,28 +30529,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30559,9 +30559,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -30570,9 +30570,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -30588,21 +30588,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30612,28 +30612,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30642,9 +30642,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -30700,10 +30700,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30712,28 +30712,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30742,9 +30742,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -30753,9 +30753,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -30810,10 +30810,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30822,28 +30822,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30852,9 +30852,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -30926,10 +30926,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30938,28 +30938,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30968,9 +30968,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -30986,9 +30986,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -31004,21 +31004,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31028,28 +31028,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31058,9 +31058,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -31125,10 +31125,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31137,28 +31137,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31167,9 +31167,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -31185,9 +31185,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -31239,10 +31239,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31251,28 +31251,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31281,9 +31281,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -31317,10 +31317,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30149},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31329,28 +31329,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31359,9 +31359,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -31379,21 +31379,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31403,28 +31403,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31433,9 +31433,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -31463,10 +31463,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30149},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31475,28 +31475,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
+																		pos: position{line: 2883, col: 12, offset: 91017},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31505,9 +31505,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -31564,10 +31564,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31576,28 +31576,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31606,9 +31606,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -31680,10 +31680,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31692,28 +31692,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31722,9 +31722,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -31740,9 +31740,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -31758,21 +31758,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31782,28 +31782,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31812,9 +31812,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -31879,10 +31879,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31891,28 +31891,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31921,9 +31921,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -31939,9 +31939,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -31997,10 +31997,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32009,28 +32009,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32039,9 +32039,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -32113,10 +32113,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32125,28 +32125,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32155,9 +32155,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -32173,9 +32173,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -32191,21 +32191,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32215,28 +32215,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32245,9 +32245,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -32312,10 +32312,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32324,28 +32324,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32354,9 +32354,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -32372,9 +32372,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -32430,10 +32430,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32442,28 +32442,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32472,9 +32472,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -32546,10 +32546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32558,28 +32558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32588,9 +32588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -32606,9 +32606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -32624,21 +32624,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32648,28 +32648,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32678,9 +32678,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -32745,10 +32745,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32757,28 +32757,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32787,9 +32787,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -32805,9 +32805,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -32841,18 +32841,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91118},
+																					pos: position{line: 2891, col: 11, offset: 91180},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91120,
+																						line: 2891, col: 13, offset: 91182,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
+																						pos: position{line: 2874, col: 10, offset: 90846},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32861,28 +32861,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32891,9 +32891,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -32912,12 +32912,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30684},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89377},
+																		pos: position{line: 2824, col: 14, offset: 89439},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89377},
+																			pos: position{line: 2824, col: 14, offset: 89439},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89377},
+																				pos:        position{line: 2824, col: 14, offset: 89439},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32927,28 +32927,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32957,9 +32957,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -32991,18 +32991,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2890, col: 11, offset: 91118},
+																								pos: position{line: 2891, col: 11, offset: 91180},
 																								expr: &anyMatcher{
-																									line: 2890, col: 13, offset: 91120,
+																									line: 2891, col: 13, offset: 91182,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33011,28 +33011,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33041,9 +33041,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -33062,12 +33062,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30684},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89377},
+																					pos: position{line: 2824, col: 14, offset: 89439},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89377},
+																						pos: position{line: 2824, col: 14, offset: 89439},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89377},
+																							pos:        position{line: 2824, col: 14, offset: 89439},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33077,28 +33077,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91182},
+																				pos: position{line: 2896, col: 8, offset: 91244},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 90955},
+																						pos: position{line: 2883, col: 12, offset: 91017},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 90956},
+																							pos: position{line: 2883, col: 13, offset: 91018},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 90956},
+																									pos:        position{line: 2883, col: 13, offset: 91018},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 90963},
+																									pos:        position{line: 2883, col: 20, offset: 91025},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 90972},
+																									pos:        position{line: 2883, col: 29, offset: 91034},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33107,9 +33107,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -33118,21 +33118,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57605},
+																	pos: position{line: 1785, col: 5, offset: 57667},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1785, col: 5, offset: 57667},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57605},
+																				pos:   position{line: 1785, col: 5, offset: 57667},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89377},
+																					pos: position{line: 2824, col: 14, offset: 89439},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89377},
+																						pos: position{line: 2824, col: 14, offset: 89439},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89377},
+																							pos:        position{line: 2824, col: 14, offset: 89439},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33142,32 +33142,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57629},
+																				pos: position{line: 1786, col: 5, offset: 57691},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91182},
+																				pos: position{line: 2896, col: 8, offset: 91244},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 90955},
+																						pos: position{line: 2883, col: 12, offset: 91017},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 90956},
+																							pos: position{line: 2883, col: 13, offset: 91018},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 90956},
+																									pos:        position{line: 2883, col: 13, offset: 91018},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 90963},
+																									pos:        position{line: 2883, col: 20, offset: 91025},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 90972},
+																									pos:        position{line: 2883, col: 29, offset: 91034},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33176,9 +33176,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -33225,10 +33225,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33237,28 +33237,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33267,9 +33267,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -33317,10 +33317,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90784},
+																									pos: position{line: 2874, col: 10, offset: 90846},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90784},
+																										pos:        position{line: 2874, col: 10, offset: 90846},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33329,28 +33329,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91182},
+																								pos: position{line: 2896, col: 8, offset: 91244},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 90955},
+																										pos: position{line: 2883, col: 12, offset: 91017},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 90956},
+																											pos: position{line: 2883, col: 13, offset: 91018},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 90956},
+																													pos:        position{line: 2883, col: 13, offset: 91018},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 90963},
+																													pos:        position{line: 2883, col: 20, offset: 91025},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 90972},
+																													pos:        position{line: 2883, col: 29, offset: 91034},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33359,9 +33359,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91132},
+																										pos: position{line: 2893, col: 8, offset: 91194},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91133,
+																											line: 2893, col: 9, offset: 91195,
 																										},
 																									},
 																								},
@@ -33370,9 +33370,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -33388,21 +33388,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33412,28 +33412,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33442,9 +33442,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -33489,10 +33489,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
+																					pos: position{line: 2874, col: 10, offset: 90846},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33501,28 +33501,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91182},
+																				pos: position{line: 2896, col: 8, offset: 91244},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 90955},
+																						pos: position{line: 2883, col: 12, offset: 91017},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 90956},
+																							pos: position{line: 2883, col: 13, offset: 91018},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 90956},
+																									pos:        position{line: 2883, col: 13, offset: 91018},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 90963},
+																									pos:        position{line: 2883, col: 20, offset: 91025},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 90972},
+																									pos:        position{line: 2883, col: 29, offset: 91034},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33531,9 +33531,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -33542,9 +33542,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -33600,10 +33600,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33612,28 +33612,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33642,9 +33642,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -33716,10 +33716,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33728,28 +33728,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33758,9 +33758,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -33776,9 +33776,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -33794,21 +33794,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33818,28 +33818,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33848,9 +33848,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -33915,10 +33915,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33927,28 +33927,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33957,9 +33957,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -33975,9 +33975,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -34033,10 +34033,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34045,28 +34045,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34075,9 +34075,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -34149,10 +34149,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34161,28 +34161,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34191,9 +34191,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -34209,9 +34209,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -34227,21 +34227,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34251,28 +34251,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34281,9 +34281,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -34348,10 +34348,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34360,28 +34360,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34390,9 +34390,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -34408,9 +34408,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -34466,10 +34466,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34478,28 +34478,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34508,9 +34508,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -34582,10 +34582,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
+																												pos: position{line: 2874, col: 10, offset: 90846},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34594,28 +34594,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
+																													pos: position{line: 2883, col: 12, offset: 91017},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34624,9 +34624,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -34642,9 +34642,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -34660,21 +34660,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91118},
+																						pos: position{line: 2891, col: 11, offset: 91180},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91120,
+																							line: 2891, col: 13, offset: 91182,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89310},
+																							pos: position{line: 2820, col: 13, offset: 89372},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89310},
+																								pos: position{line: 2820, col: 13, offset: 89372},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89310},
+																									pos:        position{line: 2820, col: 13, offset: 89372},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34684,28 +34684,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
+																								pos: position{line: 2883, col: 12, offset: 91017},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34714,9 +34714,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -34781,10 +34781,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90784},
+																								pos: position{line: 2874, col: 10, offset: 90846},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90784},
+																									pos:        position{line: 2874, col: 10, offset: 90846},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34793,28 +34793,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91182},
+																							pos: position{line: 2896, col: 8, offset: 91244},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 90955},
+																									pos: position{line: 2883, col: 12, offset: 91017},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 90956},
+																										pos: position{line: 2883, col: 13, offset: 91018},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 90956},
+																												pos:        position{line: 2883, col: 13, offset: 91018},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 90963},
+																												pos:        position{line: 2883, col: 20, offset: 91025},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 90972},
+																												pos:        position{line: 2883, col: 29, offset: 91034},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34823,9 +34823,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91132},
+																									pos: position{line: 2893, col: 8, offset: 91194},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91133,
+																										line: 2893, col: 9, offset: 91195,
 																									},
 																								},
 																							},
@@ -34841,9 +34841,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -34854,52 +34854,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2718, col: 18, offset: 86374},
+										pos: position{line: 2719, col: 18, offset: 86436},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2718, col: 18, offset: 86374},
+											pos: position{line: 2719, col: 18, offset: 86436},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2719, col: 9, offset: 86384},
+													pos: position{line: 2720, col: 9, offset: 86446},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2719, col: 9, offset: 86384},
+															pos:        position{line: 2720, col: 9, offset: 86446},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 11, offset: 86420},
+															pos:        position{line: 2721, col: 11, offset: 86482},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 19, offset: 86428},
+															pos:        position{line: 2721, col: 19, offset: 86490},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 29, offset: 86438},
+															pos:        position{line: 2721, col: 29, offset: 86500},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 37, offset: 86446},
+															pos:        position{line: 2721, col: 37, offset: 86508},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 47, offset: 86456},
+															pos:        position{line: 2721, col: 47, offset: 86518},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 55, offset: 86464},
+															pos:        position{line: 2721, col: 55, offset: 86526},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34907,12 +34907,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2721, col: 11, offset: 86522},
+													pos: position{line: 2722, col: 11, offset: 86584},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34921,28 +34921,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34951,36 +34951,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement1313,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34989,9 +34989,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -35004,24 +35004,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2609, col: 5, offset: 83310},
+										pos: position{line: 2610, col: 5, offset: 83372},
 										run: (*parser).callonListContinuationElement1321,
 										expr: &seqExpr{
-											pos: position{line: 2609, col: 5, offset: 83310},
+											pos: position{line: 2610, col: 5, offset: 83372},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2615, col: 19, offset: 83467},
+													pos:        position{line: 2616, col: 19, offset: 83529},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2615, col: 26, offset: 83474},
+													pos: position{line: 2616, col: 26, offset: 83536},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonListContinuationElement1325,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35030,28 +35030,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement1328,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35060,20 +35060,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2610, col: 5, offset: 83334},
+													pos:   position{line: 2611, col: 5, offset: 83396},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2610, col: 11, offset: 83340},
+														pos: position{line: 2611, col: 11, offset: 83402},
 														expr: &choiceExpr{
-															pos: position{line: 2610, col: 12, offset: 83341},
+															pos: position{line: 2611, col: 12, offset: 83403},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
@@ -35082,18 +35082,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2890, col: 11, offset: 91118},
+																				pos: position{line: 2891, col: 11, offset: 91180},
 																				expr: &anyMatcher{
-																					line: 2890, col: 13, offset: 91120,
+																					line: 2891, col: 13, offset: 91182,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
+																					pos: position{line: 2874, col: 10, offset: 90846},
 																					run: (*parser).callonListContinuationElement1343,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35102,28 +35102,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91182},
+																				pos: position{line: 2896, col: 8, offset: 91244},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 90955},
+																						pos: position{line: 2883, col: 12, offset: 91017},
 																						run: (*parser).callonListContinuationElement1346,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 90956},
+																							pos: position{line: 2883, col: 13, offset: 91018},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 90956},
+																									pos:        position{line: 2883, col: 13, offset: 91018},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 90963},
+																									pos:        position{line: 2883, col: 20, offset: 91025},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 90972},
+																									pos:        position{line: 2883, col: 29, offset: 91034},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35132,9 +35132,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91132},
+																						pos: position{line: 2893, col: 8, offset: 91194},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91133,
+																							line: 2893, col: 9, offset: 91195,
 																						},
 																					},
 																				},
@@ -35143,32 +35143,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2622, col: 5, offset: 83586},
+																	pos: position{line: 2623, col: 5, offset: 83648},
 																	run: (*parser).callonListContinuationElement1353,
 																	expr: &seqExpr{
-																		pos: position{line: 2622, col: 5, offset: 83586},
+																		pos: position{line: 2623, col: 5, offset: 83648},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2622, col: 5, offset: 83586},
+																				pos: position{line: 2623, col: 5, offset: 83648},
 																				expr: &choiceExpr{
-																					pos: position{line: 2619, col: 22, offset: 83547},
+																					pos: position{line: 2620, col: 22, offset: 83609},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2615, col: 19, offset: 83467},
+																							pos: position{line: 2616, col: 19, offset: 83529},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2615, col: 19, offset: 83467},
+																									pos:        position{line: 2616, col: 19, offset: 83529},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2615, col: 26, offset: 83474},
+																									pos: position{line: 2616, col: 26, offset: 83536},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90784},
+																										pos: position{line: 2874, col: 10, offset: 90846},
 																										run: (*parser).callonListContinuationElement1360,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90784},
+																											pos:        position{line: 2874, col: 10, offset: 90846},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35177,28 +35177,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
+																											pos: position{line: 2883, col: 12, offset: 91017},
 																											run: (*parser).callonListContinuationElement1363,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35207,9 +35207,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -35217,59 +35217,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2623, col: 5, offset: 83609},
+																				pos:   position{line: 2624, col: 5, offset: 83671},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2624, col: 9, offset: 83627},
+																					pos: position{line: 2625, col: 9, offset: 83689},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2624, col: 10, offset: 83628},
+																							pos: position{line: 2625, col: 10, offset: 83690},
 																							run: (*parser).callonListContinuationElement1374,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2624, col: 10, offset: 83628},
+																								pos:   position{line: 2625, col: 10, offset: 83690},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2624, col: 17, offset: 83635},
+																									pos: position{line: 2625, col: 17, offset: 83697},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2632, col: 21, offset: 83831},
+																											pos: position{line: 2633, col: 21, offset: 83893},
 																											run: (*parser).callonListContinuationElement1377,
 																											expr: &seqExpr{
-																												pos: position{line: 2632, col: 21, offset: 83831},
+																												pos: position{line: 2633, col: 21, offset: 83893},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2632, col: 21, offset: 83831},
+																														pos:   position{line: 2633, col: 21, offset: 83893},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2632, col: 27, offset: 83837},
+																															pos: position{line: 2633, col: 27, offset: 83899},
 																															expr: &actionExpr{
-																																pos: position{line: 2637, col: 5, offset: 83912},
+																																pos: position{line: 2638, col: 5, offset: 83974},
 																																run: (*parser).callonListContinuationElement1381,
 																																expr: &seqExpr{
-																																	pos: position{line: 2637, col: 5, offset: 83912},
+																																	pos: position{line: 2638, col: 5, offset: 83974},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2637, col: 5, offset: 83912},
+																																			pos:        position{line: 2638, col: 5, offset: 83974},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2637, col: 9, offset: 83916},
+																																			pos: position{line: 2638, col: 9, offset: 83978},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2873, col: 10, offset: 90784},
+																																				pos: position{line: 2874, col: 10, offset: 90846},
 																																				run: (*parser).callonListContinuationElement1385,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2873, col: 10, offset: 90784},
+																																					pos:        position{line: 2874, col: 10, offset: 90846},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35278,21 +35278,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2637, col: 16, offset: 83923},
+																																			pos:   position{line: 2638, col: 16, offset: 83985},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2643, col: 5, offset: 84123},
+																																				pos: position{line: 2644, col: 5, offset: 84185},
 																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2643, col: 5, offset: 84123},
+																																					pos:   position{line: 2644, col: 5, offset: 84185},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2643, col: 14, offset: 84132},
+																																						pos: position{line: 2644, col: 14, offset: 84194},
 																																						run: (*parser).callonListContinuationElement1390,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84132},
+																																							pos: position{line: 2644, col: 14, offset: 84194},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2643, col: 14, offset: 84132},
+																																								pos:        position{line: 2644, col: 14, offset: 84194},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35309,28 +35309,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2895, col: 8, offset: 91182},
+																														pos: position{line: 2896, col: 8, offset: 91244},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2882, col: 12, offset: 90955},
+																																pos: position{line: 2883, col: 12, offset: 91017},
 																																run: (*parser).callonListContinuationElement1394,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2882, col: 13, offset: 90956},
+																																	pos: position{line: 2883, col: 13, offset: 91018},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 13, offset: 90956},
+																																			pos:        position{line: 2883, col: 13, offset: 91018},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 20, offset: 90963},
+																																			pos:        position{line: 2883, col: 20, offset: 91025},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 29, offset: 90972},
+																																			pos:        position{line: 2883, col: 29, offset: 91034},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35339,9 +35339,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2892, col: 8, offset: 91132},
+																																pos: position{line: 2893, col: 8, offset: 91194},
 																																expr: &anyMatcher{
-																																	line: 2892, col: 9, offset: 91133,
+																																	line: 2893, col: 9, offset: 91195,
 																																},
 																															},
 																														},
@@ -35350,40 +35350,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2649, col: 24, offset: 84268},
+																											pos: position{line: 2650, col: 24, offset: 84330},
 																											run: (*parser).callonListContinuationElement1401,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2649, col: 24, offset: 84268},
+																												pos:   position{line: 2650, col: 24, offset: 84330},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2649, col: 30, offset: 84274},
+																													pos: position{line: 2650, col: 30, offset: 84336},
 																													expr: &actionExpr{
-																														pos: position{line: 2654, col: 5, offset: 84350},
+																														pos: position{line: 2655, col: 5, offset: 84412},
 																														run: (*parser).callonListContinuationElement1404,
 																														expr: &seqExpr{
-																															pos: position{line: 2654, col: 5, offset: 84350},
+																															pos: position{line: 2655, col: 5, offset: 84412},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2654, col: 5, offset: 84350},
+																																	pos: position{line: 2655, col: 5, offset: 84412},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2619, col: 22, offset: 83547},
+																																		pos: position{line: 2620, col: 22, offset: 83609},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2615, col: 19, offset: 83467},
+																																				pos: position{line: 2616, col: 19, offset: 83529},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2615, col: 19, offset: 83467},
+																																						pos:        position{line: 2616, col: 19, offset: 83529},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2615, col: 26, offset: 83474},
+																																						pos: position{line: 2616, col: 26, offset: 83536},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90784},
+																																							pos: position{line: 2874, col: 10, offset: 90846},
 																																							run: (*parser).callonListContinuationElement1411,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90784},
+																																								pos:        position{line: 2874, col: 10, offset: 90846},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35392,28 +35392,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91182},
+																																						pos: position{line: 2896, col: 8, offset: 91244},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 90955},
+																																								pos: position{line: 2883, col: 12, offset: 91017},
 																																								run: (*parser).callonListContinuationElement1414,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 90956},
+																																									pos: position{line: 2883, col: 13, offset: 91018},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 90956},
+																																											pos:        position{line: 2883, col: 13, offset: 91018},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 90963},
+																																											pos:        position{line: 2883, col: 20, offset: 91025},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 90972},
+																																											pos:        position{line: 2883, col: 29, offset: 91034},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35422,9 +35422,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91132},
+																																								pos: position{line: 2893, col: 8, offset: 91194},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91133,
+																																									line: 2893, col: 9, offset: 91195,
 																																								},
 																																							},
 																																						},
@@ -35432,16 +35432,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2892, col: 8, offset: 91132},
+																																				pos: position{line: 2893, col: 8, offset: 91194},
 																																				expr: &anyMatcher{
-																																					line: 2892, col: 9, offset: 91133,
+																																					line: 2893, col: 9, offset: 91195,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84373},
+																																	pos: position{line: 2656, col: 5, offset: 84435},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
 																																		run: (*parser).callonListContinuationElement1424,
@@ -35449,18 +35449,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2890, col: 11, offset: 91118},
+																																					pos: position{line: 2891, col: 11, offset: 91180},
 																																					expr: &anyMatcher{
-																																						line: 2890, col: 13, offset: 91120,
+																																						line: 2891, col: 13, offset: 91182,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2873, col: 10, offset: 90784},
+																																						pos: position{line: 2874, col: 10, offset: 90846},
 																																						run: (*parser).callonListContinuationElement1429,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2873, col: 10, offset: 90784},
+																																							pos:        position{line: 2874, col: 10, offset: 90846},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35469,28 +35469,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91182},
+																																					pos: position{line: 2896, col: 8, offset: 91244},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2882, col: 12, offset: 90955},
+																																							pos: position{line: 2883, col: 12, offset: 91017},
 																																							run: (*parser).callonListContinuationElement1432,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2882, col: 13, offset: 90956},
+																																								pos: position{line: 2883, col: 13, offset: 91018},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 13, offset: 90956},
+																																										pos:        position{line: 2883, col: 13, offset: 91018},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 20, offset: 90963},
+																																										pos:        position{line: 2883, col: 20, offset: 91025},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 29, offset: 90972},
+																																										pos:        position{line: 2883, col: 29, offset: 91034},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35499,9 +35499,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2892, col: 8, offset: 91132},
+																																							pos: position{line: 2893, col: 8, offset: 91194},
 																																							expr: &anyMatcher{
-																																								line: 2892, col: 9, offset: 91133,
+																																								line: 2893, col: 9, offset: 91195,
 																																							},
 																																						},
 																																					},
@@ -35511,17 +35511,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 5, offset: 84388},
+																																	pos:   position{line: 2657, col: 5, offset: 84450},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 12, offset: 84395},
+																																		pos: position{line: 2657, col: 12, offset: 84457},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2673, col: 20, offset: 84859},
+																																			pos: position{line: 2674, col: 20, offset: 84921},
 																																			run: (*parser).callonListContinuationElement1441,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2673, col: 20, offset: 84859},
+																																				pos: position{line: 2674, col: 20, offset: 84921},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2673, col: 20, offset: 84859},
+																																					pos:        position{line: 2674, col: 20, offset: 84921},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35532,18 +35532,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2656, col: 31, offset: 84414},
+																																	pos:        position{line: 2657, col: 31, offset: 84476},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2656, col: 35, offset: 84418},
+																																	pos: position{line: 2657, col: 35, offset: 84480},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2873, col: 10, offset: 90784},
+																																		pos: position{line: 2874, col: 10, offset: 90846},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2873, col: 10, offset: 90784},
+																																			pos:        position{line: 2874, col: 10, offset: 90846},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35552,27 +35552,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2656, col: 42, offset: 84425},
+																																	pos: position{line: 2657, col: 42, offset: 84487},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2882, col: 12, offset: 90955},
+																																		pos: position{line: 2883, col: 12, offset: 91017},
 																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2882, col: 13, offset: 90956},
+																																			pos: position{line: 2883, col: 13, offset: 91018},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 13, offset: 90956},
+																																					pos:        position{line: 2883, col: 13, offset: 91018},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 20, offset: 90963},
+																																					pos:        position{line: 2883, col: 20, offset: 91025},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 29, offset: 90972},
+																																					pos:        position{line: 2883, col: 29, offset: 91034},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35582,37 +35582,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 51, offset: 84434},
+																																	pos:   position{line: 2657, col: 51, offset: 84496},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2662, col: 5, offset: 84593},
+																																		pos: position{line: 2663, col: 5, offset: 84655},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2663, col: 9, offset: 84603},
+																																			pos: position{line: 2664, col: 9, offset: 84665},
 																																			run: (*parser).callonListContinuationElement1456,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84603},
+																																				pos: position{line: 2664, col: 9, offset: 84665},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2663, col: 9, offset: 84603},
+																																						pos: position{line: 2664, col: 9, offset: 84665},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2619, col: 22, offset: 83547},
+																																							pos: position{line: 2620, col: 22, offset: 83609},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2615, col: 19, offset: 83467},
+																																									pos: position{line: 2616, col: 19, offset: 83529},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2615, col: 19, offset: 83467},
+																																											pos:        position{line: 2616, col: 19, offset: 83529},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2615, col: 26, offset: 83474},
+																																											pos: position{line: 2616, col: 26, offset: 83536},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90784},
+																																												pos: position{line: 2874, col: 10, offset: 90846},
 																																												run: (*parser).callonListContinuationElement1463,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90784},
+																																													pos:        position{line: 2874, col: 10, offset: 90846},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35621,28 +35621,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91182},
+																																											pos: position{line: 2896, col: 8, offset: 91244},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 90955},
+																																													pos: position{line: 2883, col: 12, offset: 91017},
 																																													run: (*parser).callonListContinuationElement1466,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 90956},
+																																														pos: position{line: 2883, col: 13, offset: 91018},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35651,9 +35651,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91132},
+																																													pos: position{line: 2893, col: 8, offset: 91194},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91133,
+																																														line: 2893, col: 9, offset: 91195,
 																																													},
 																																												},
 																																											},
@@ -35661,16 +35661,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91132},
+																																									pos: position{line: 2893, col: 8, offset: 91194},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91133,
+																																										line: 2893, col: 9, offset: 91195,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2664, col: 9, offset: 84630},
+																																						pos: position{line: 2665, col: 9, offset: 84692},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
 																																							run: (*parser).callonListContinuationElement1476,
@@ -35678,18 +35678,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2890, col: 11, offset: 91118},
+																																										pos: position{line: 2891, col: 11, offset: 91180},
 																																										expr: &anyMatcher{
-																																											line: 2890, col: 13, offset: 91120,
+																																											line: 2891, col: 13, offset: 91182,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2873, col: 10, offset: 90784},
+																																											pos: position{line: 2874, col: 10, offset: 90846},
 																																											run: (*parser).callonListContinuationElement1481,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2873, col: 10, offset: 90784},
+																																												pos:        position{line: 2874, col: 10, offset: 90846},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35698,28 +35698,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91182},
+																																										pos: position{line: 2896, col: 8, offset: 91244},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2882, col: 12, offset: 90955},
+																																												pos: position{line: 2883, col: 12, offset: 91017},
 																																												run: (*parser).callonListContinuationElement1484,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2882, col: 13, offset: 90956},
+																																													pos: position{line: 2883, col: 13, offset: 91018},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 13, offset: 90956},
+																																															pos:        position{line: 2883, col: 13, offset: 91018},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 20, offset: 90963},
+																																															pos:        position{line: 2883, col: 20, offset: 91025},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 29, offset: 90972},
+																																															pos:        position{line: 2883, col: 29, offset: 91034},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35728,9 +35728,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2892, col: 8, offset: 91132},
+																																												pos: position{line: 2893, col: 8, offset: 91194},
 																																												expr: &anyMatcher{
-																																													line: 2892, col: 9, offset: 91133,
+																																													line: 2893, col: 9, offset: 91195,
 																																												},
 																																											},
 																																										},
@@ -35740,22 +35740,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84649},
+																																						pos: position{line: 2666, col: 9, offset: 84711},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2665, col: 11, offset: 84651},
+																																							pos: position{line: 2666, col: 11, offset: 84713},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2665, col: 11, offset: 84651},
+																																									pos:   position{line: 2666, col: 11, offset: 84713},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2665, col: 18, offset: 84658},
+																																										pos: position{line: 2666, col: 18, offset: 84720},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2673, col: 20, offset: 84859},
+																																											pos: position{line: 2674, col: 20, offset: 84921},
 																																											run: (*parser).callonListContinuationElement1495,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2673, col: 20, offset: 84859},
+																																												pos: position{line: 2674, col: 20, offset: 84921},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2673, col: 20, offset: 84859},
+																																													pos:        position{line: 2674, col: 20, offset: 84921},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35766,7 +35766,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2665, col: 37, offset: 84677},
+																																									pos:        position{line: 2666, col: 37, offset: 84739},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35775,15 +35775,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2666, col: 9, offset: 84690},
+																																						pos:   position{line: 2667, col: 9, offset: 84752},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2666, col: 18, offset: 84699},
+																																							pos: position{line: 2667, col: 18, offset: 84761},
 																																							run: (*parser).callonListContinuationElement1500,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84699},
+																																								pos: position{line: 2667, col: 18, offset: 84761},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2666, col: 18, offset: 84699},
+																																									pos:        position{line: 2667, col: 18, offset: 84761},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35793,30 +35793,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2668, col: 12, offset: 84761},
+																																						pos: position{line: 2669, col: 12, offset: 84823},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91182},
+																																							pos: position{line: 2896, col: 8, offset: 91244},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 90955},
+																																									pos: position{line: 2883, col: 12, offset: 91017},
 																																									run: (*parser).callonListContinuationElement1505,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 90956},
+																																										pos: position{line: 2883, col: 13, offset: 91018},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 90956},
+																																												pos:        position{line: 2883, col: 13, offset: 91018},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 90963},
+																																												pos:        position{line: 2883, col: 20, offset: 91025},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 90972},
+																																												pos:        position{line: 2883, col: 29, offset: 91034},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35825,9 +35825,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91132},
+																																									pos: position{line: 2893, col: 8, offset: 91194},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91133,
+																																										line: 2893, col: 9, offset: 91195,
 																																									},
 																																								},
 																																							},
@@ -35855,18 +35855,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91118},
+																										pos: position{line: 2891, col: 11, offset: 91180},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91120,
+																											line: 2891, col: 13, offset: 91182,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90784},
+																											pos: position{line: 2874, col: 10, offset: 90846},
 																											run: (*parser).callonListContinuationElement1517,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90784},
+																												pos:        position{line: 2874, col: 10, offset: 90846},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35875,28 +35875,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91182},
+																										pos: position{line: 2896, col: 8, offset: 91244},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 90955},
+																												pos: position{line: 2883, col: 12, offset: 91017},
 																												run: (*parser).callonListContinuationElement1520,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 90956},
+																													pos: position{line: 2883, col: 13, offset: 91018},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 90956},
+																															pos:        position{line: 2883, col: 13, offset: 91018},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 90963},
+																															pos:        position{line: 2883, col: 20, offset: 91025},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 90972},
+																															pos:        position{line: 2883, col: 29, offset: 91034},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35905,9 +35905,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91132},
+																												pos: position{line: 2893, col: 8, offset: 91194},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91133,
+																													line: 2893, col: 9, offset: 91195,
 																												},
 																											},
 																										},
@@ -35926,24 +35926,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2619, col: 22, offset: 83547},
+													pos: position{line: 2620, col: 22, offset: 83609},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83467},
+															pos: position{line: 2616, col: 19, offset: 83529},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83467},
+																	pos:        position{line: 2616, col: 19, offset: 83529},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83474},
+																	pos: position{line: 2616, col: 26, offset: 83536},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonListContinuationElement1531,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35952,28 +35952,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonListContinuationElement1534,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35982,9 +35982,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -35992,9 +35992,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -36003,36 +36003,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79698},
+										pos: position{line: 2481, col: 22, offset: 79760},
 										run: (*parser).callonListContinuationElement1543,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79698},
+											pos: position{line: 2481, col: 22, offset: 79760},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 79919},
+													pos:        position{line: 2486, col: 31, offset: 79981},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 79924},
+													pos: position{line: 2486, col: 36, offset: 79986},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 79925},
+														pos:        position{line: 2486, col: 37, offset: 79987},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79725},
+													pos:   position{line: 2481, col: 49, offset: 79787},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89310},
+														pos: position{line: 2820, col: 13, offset: 89372},
 														run: (*parser).callonListContinuationElement1549,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89310},
+															pos: position{line: 2820, col: 13, offset: 89372},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89310},
+																pos:        position{line: 2820, col: 13, offset: 89372},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36042,28 +36042,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91182},
+													pos: position{line: 2896, col: 8, offset: 91244},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonListContinuationElement1553,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36072,9 +36072,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91132},
+															pos: position{line: 2893, col: 8, offset: 91194},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91133,
+																line: 2893, col: 9, offset: 91195,
 															},
 														},
 													},
@@ -36165,12 +36165,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1738, col: 13, offset: 56119},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90845},
+																							pos: position{line: 2878, col: 11, offset: 90907},
 																							run: (*parser).callonListContinuationElement1581,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90845},
+																								pos: position{line: 2878, col: 11, offset: 90907},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90845},
+																									pos:        position{line: 2878, col: 11, offset: 90907},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36183,6 +36183,66 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&notExpr{
+																		pos: position{line: 1741, col: 5, offset: 56204},
+																		expr: &seqExpr{
+																			pos: position{line: 1741, col: 7, offset: 56206},
+																			exprs: []interface{}{
+																				&zeroOrMoreExpr{
+																					pos: position{line: 1741, col: 7, offset: 56206},
+																					expr: &actionExpr{
+																						pos: position{line: 2874, col: 10, offset: 90846},
+																						run: (*parser).callonListContinuationElement1587,
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							val:        "[\\t ]",
+																							chars:      []rune{'\t', ' '},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																				},
+																				&choiceExpr{
+																					pos: position{line: 2896, col: 8, offset: 91244},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2883, col: 12, offset: 91017},
+																							run: (*parser).callonListContinuationElement1590,
+																							expr: &choiceExpr{
+																								pos: position{line: 2883, col: 13, offset: 91018},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2893, col: 8, offset: 91194},
+																							expr: &anyMatcher{
+																								line: 2893, col: 9, offset: 91195,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
 																},
 															},
 														},
@@ -36193,7 +36253,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48795},
-														run: (*parser).callonListContinuationElement1585,
+														run: (*parser).callonListContinuationElement1598,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48795},
 															exprs: []interface{}{
@@ -36201,23 +36261,23 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48795},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1588,
+																		run: (*parser).callonListContinuationElement1601,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91118},
+																					pos: position{line: 2891, col: 11, offset: 91180},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91120,
+																						line: 2891, col: 13, offset: 91182,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
-																						run: (*parser).callonListContinuationElement1593,
+																						pos: position{line: 2874, col: 10, offset: 90846},
+																						run: (*parser).callonListContinuationElement1606,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36226,28 +36286,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91182},
+																					pos: position{line: 2896, col: 8, offset: 91244},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
-																							run: (*parser).callonListContinuationElement1596,
+																							pos: position{line: 2883, col: 12, offset: 91017},
+																							run: (*parser).callonListContinuationElement1609,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36256,9 +36316,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91132},
+																							pos: position{line: 2893, col: 8, offset: 91194},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91133,
+																								line: 2893, col: 9, offset: 91195,
 																							},
 																						},
 																					},
@@ -36281,10 +36341,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1536, col: 31, offset: 49640},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
-																					run: (*parser).callonListContinuationElement1607,
+																					pos: position{line: 2874, col: 10, offset: 90846},
+																					run: (*parser).callonListContinuationElement1620,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36293,25 +36353,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
-																				run: (*parser).callonListContinuationElement1609,
+																				pos: position{line: 2883, col: 12, offset: 91017},
+																				run: (*parser).callonListContinuationElement1622,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36326,17 +36386,17 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48838},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50855},
-																		run: (*parser).callonListContinuationElement1615,
+																		run: (*parser).callonListContinuationElement1628,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50855},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1577, col: 5, offset: 50855},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
-																						run: (*parser).callonListContinuationElement1618,
+																						pos: position{line: 2874, col: 10, offset: 90846},
+																						run: (*parser).callonListContinuationElement1631,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36352,7 +36412,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50925},
-																								run: (*parser).callonListContinuationElement1622,
+																								run: (*parser).callonListContinuationElement1635,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50925},
 																									exprs: []interface{}{
@@ -36361,7 +36421,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50932},
-																												run: (*parser).callonListContinuationElement1625,
+																												run: (*parser).callonListContinuationElement1638,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50932},
 																													expr: &litMatcher{
@@ -36375,14 +36435,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51033},
-																											run: (*parser).callonListContinuationElement1628,
+																											run: (*parser).callonListContinuationElement1641,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51750},
-																								run: (*parser).callonListContinuationElement1629,
+																								run: (*parser).callonListContinuationElement1642,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51750},
 																									exprs: []interface{}{
@@ -36407,7 +36467,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51876},
-																								run: (*parser).callonListContinuationElement1634,
+																								run: (*parser).callonListContinuationElement1647,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51876},
 																									exprs: []interface{}{
@@ -36429,7 +36489,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52004},
-																								run: (*parser).callonListContinuationElement1638,
+																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52004},
 																									exprs: []interface{}{
@@ -36451,7 +36511,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52132},
-																								run: (*parser).callonListContinuationElement1642,
+																								run: (*parser).callonListContinuationElement1655,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52132},
 																									exprs: []interface{}{
@@ -36476,7 +36536,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52265},
-																								run: (*parser).callonListContinuationElement1647,
+																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52265},
 																									exprs: []interface{}{
@@ -36503,12 +36563,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 90845},
-																					run: (*parser).callonListContinuationElement1652,
+																					pos: position{line: 2878, col: 11, offset: 90907},
+																					run: (*parser).callonListContinuationElement1665,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 90845},
+																						pos: position{line: 2878, col: 11, offset: 90907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 90845},
+																							pos:        position{line: 2878, col: 11, offset: 90907},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36524,17 +36584,17 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48868},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52817},
-																		run: (*parser).callonListContinuationElement1656,
+																		run: (*parser).callonListContinuationElement1669,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52817},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1627, col: 5, offset: 52817},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90784},
-																						run: (*parser).callonListContinuationElement1659,
+																						pos: position{line: 2874, col: 10, offset: 90846},
+																						run: (*parser).callonListContinuationElement1672,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90784},
+																							pos:        position{line: 2874, col: 10, offset: 90846},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36547,7 +36607,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52845},
-																						run: (*parser).callonListContinuationElement1662,
+																						run: (*parser).callonListContinuationElement1675,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52846},
 																							alternatives: []interface{}{
@@ -36572,15 +36632,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52945},
-																					run: (*parser).callonListContinuationElement1667,
+																					run: (*parser).callonListContinuationElement1680,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 90845},
-																					run: (*parser).callonListContinuationElement1668,
+																					pos: position{line: 2878, col: 11, offset: 90907},
+																					run: (*parser).callonListContinuationElement1681,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 90845},
+																						pos: position{line: 2878, col: 11, offset: 90907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 90845},
+																							pos:        position{line: 2878, col: 11, offset: 90907},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36596,7 +36656,7 @@ var g = &grammar{
 																	pos: position{line: 1509, col: 5, offset: 48900},
 																	expr: &actionExpr{
 																		pos: position{line: 1716, col: 5, offset: 55354},
-																		run: (*parser).callonListContinuationElement1672,
+																		run: (*parser).callonListContinuationElement1685,
 																		expr: &seqExpr{
 																			pos: position{line: 1716, col: 5, offset: 55354},
 																			exprs: []interface{}{
@@ -36611,7 +36671,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1716, col: 14, offset: 55363},
-																						run: (*parser).callonListContinuationElement1676,
+																						run: (*parser).callonListContinuationElement1689,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1716, col: 14, offset: 55363},
 																							expr: &charClassMatcher{
@@ -36631,12 +36691,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 90845},
-																					run: (*parser).callonListContinuationElement1680,
+																					pos: position{line: 2878, col: 11, offset: 90907},
+																					run: (*parser).callonListContinuationElement1693,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 90845},
+																						pos: position{line: 2878, col: 11, offset: 90907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 90845},
+																							pos:        position{line: 2878, col: 11, offset: 90907},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36655,7 +36715,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonListContinuationElement1685,
+																				run: (*parser).callonListContinuationElement1698,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1662, col: 5, offset: 53836},
 																					expr: &seqExpr{
@@ -36665,7 +36725,7 @@ var g = &grammar{
 																								pos: position{line: 1662, col: 6, offset: 53837},
 																								expr: &actionExpr{
 																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonListContinuationElement1689,
+																									run: (*parser).callonListContinuationElement1702,
 																									expr: &seqExpr{
 																										pos: position{line: 1667, col: 5, offset: 53987},
 																										exprs: []interface{}{
@@ -36674,7 +36734,7 @@ var g = &grammar{
 																												label: "separator",
 																												expr: &actionExpr{
 																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonListContinuationElement1692,
+																													run: (*parser).callonListContinuationElement1705,
 																													expr: &oneOrMoreExpr{
 																														pos: position{line: 1667, col: 16, offset: 53998},
 																														expr: &litMatcher{
@@ -36688,7 +36748,7 @@ var g = &grammar{
 																											},
 																											&andCodeExpr{
 																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonListContinuationElement1695,
+																												run: (*parser).callonListContinuationElement1708,
 																											},
 																										},
 																									},
@@ -36697,28 +36757,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1662, col: 35, offset: 53866},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91182},
+																									pos: position{line: 2896, col: 8, offset: 91244},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 90955},
-																											run: (*parser).callonListContinuationElement1698,
+																											pos: position{line: 2883, col: 12, offset: 91017},
+																											run: (*parser).callonListContinuationElement1711,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 90956},
+																												pos: position{line: 2883, col: 13, offset: 91018},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 90956},
+																														pos:        position{line: 2883, col: 13, offset: 91018},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 90963},
+																														pos:        position{line: 2883, col: 20, offset: 91025},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 90972},
+																														pos:        position{line: 2883, col: 29, offset: 91034},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36727,9 +36787,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91132},
+																											pos: position{line: 2893, col: 8, offset: 91194},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91133,
+																												line: 2893, col: 9, offset: 91195,
 																											},
 																										},
 																									},
@@ -36744,7 +36804,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonListContinuationElement1706,
+																				run: (*parser).callonListContinuationElement1719,
 																				expr: &seqExpr{
 																					pos: position{line: 1667, col: 5, offset: 53987},
 																					exprs: []interface{}{
@@ -36753,7 +36813,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonListContinuationElement1709,
+																								run: (*parser).callonListContinuationElement1722,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1667, col: 16, offset: 53998},
 																									expr: &litMatcher{
@@ -36767,7 +36827,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonListContinuationElement1712,
+																							run: (*parser).callonListContinuationElement1725,
 																						},
 																					},
 																				},
@@ -36779,14 +36839,14 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 48988},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1714,
+																		run: (*parser).callonListContinuationElement1727,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2763, col: 13, offset: 87879},
+																						pos:        position{line: 2764, col: 13, offset: 87941},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36801,7 +36861,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1720,
+																								run: (*parser).callonListContinuationElement1733,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -36810,7 +36870,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1723,
+																												run: (*parser).callonListContinuationElement1736,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -36836,10 +36896,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1729,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1742,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36848,28 +36908,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1732,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1745,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36878,9 +36938,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -36890,7 +36950,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1739,
+																								run: (*parser).callonListContinuationElement1752,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -36899,7 +36959,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1742,
+																												run: (*parser).callonListContinuationElement1755,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -36925,10 +36985,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1748,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1761,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36937,28 +36997,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1751,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1764,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36967,9 +37027,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -36979,7 +37039,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1758,
+																								run: (*parser).callonListContinuationElement1771,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -36994,7 +37054,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1762,
+																												run: (*parser).callonListContinuationElement1775,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37010,10 +37070,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1766,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37022,28 +37082,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1769,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37052,9 +37112,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37064,7 +37124,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1776,
+																								run: (*parser).callonListContinuationElement1789,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37073,7 +37133,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1779,
+																												run: (*parser).callonListContinuationElement1792,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37099,10 +37159,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1785,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1798,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37111,28 +37171,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1788,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1801,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37141,9 +37201,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37153,7 +37213,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1795,
+																								run: (*parser).callonListContinuationElement1808,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37162,7 +37222,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1798,
+																												run: (*parser).callonListContinuationElement1811,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37188,10 +37248,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1804,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37200,28 +37260,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1807,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37230,9 +37290,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37242,7 +37302,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1814,
+																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -37251,7 +37311,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1817,
+																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -37277,10 +37337,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1823,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37289,28 +37349,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1826,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37319,9 +37379,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37331,7 +37391,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1833,
+																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -37340,7 +37400,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1836,
+																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -37366,10 +37426,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1842,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37378,28 +37438,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1845,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37408,9 +37468,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37420,7 +37480,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1852,
+																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -37429,7 +37489,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1855,
+																												run: (*parser).callonListContinuationElement1868,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -37455,10 +37515,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1861,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1874,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37467,28 +37527,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1864,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1877,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37497,9 +37557,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37509,7 +37569,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1871,
+																								run: (*parser).callonListContinuationElement1884,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -37518,7 +37578,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1874,
+																												run: (*parser).callonListContinuationElement1887,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -37544,10 +37604,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90784},
-																												run: (*parser).callonListContinuationElement1880,
+																												pos: position{line: 2874, col: 10, offset: 90846},
+																												run: (*parser).callonListContinuationElement1893,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90784},
+																													pos:        position{line: 2874, col: 10, offset: 90846},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37556,28 +37616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91182},
+																											pos: position{line: 2896, col: 8, offset: 91244},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 90955},
-																													run: (*parser).callonListContinuationElement1883,
+																													pos: position{line: 2883, col: 12, offset: 91017},
+																													run: (*parser).callonListContinuationElement1896,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 90956},
+																														pos: position{line: 2883, col: 13, offset: 91018},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 90956},
+																																pos:        position{line: 2883, col: 13, offset: 91018},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 90963},
+																																pos:        position{line: 2883, col: 20, offset: 91025},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 90972},
+																																pos:        position{line: 2883, col: 29, offset: 91034},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37586,9 +37646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91132},
+																													pos: position{line: 2893, col: 8, offset: 91194},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91133,
+																														line: 2893, col: 9, offset: 91195,
 																													},
 																												},
 																											},
@@ -37607,12 +37667,12 @@ var g = &grammar{
 																	pos:   position{line: 1512, col: 5, offset: 49008},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89377},
-																		run: (*parser).callonListContinuationElement1891,
+																		pos: position{line: 2824, col: 14, offset: 89439},
+																		run: (*parser).callonListContinuationElement1904,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89377},
+																			pos: position{line: 2824, col: 14, offset: 89439},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89377},
+																				pos:        position{line: 2824, col: 14, offset: 89439},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37622,28 +37682,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
-																			run: (*parser).callonListContinuationElement1895,
+																			pos: position{line: 2883, col: 12, offset: 91017},
+																			run: (*parser).callonListContinuationElement1908,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37652,9 +37712,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -37719,10 +37779,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1705, col: 66, offset: 55054},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37736,25 +37796,25 @@ var g = &grammar{
 								pos: position{line: 1705, col: 75, offset: 55063},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 90955},
+										pos: position{line: 2883, col: 12, offset: 91017},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 90956},
+											pos: position{line: 2883, col: 13, offset: 91018},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 90956},
+													pos:        position{line: 2883, col: 13, offset: 91018},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 90963},
+													pos:        position{line: 2883, col: 20, offset: 91025},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 90972},
+													pos:        position{line: 2883, col: 29, offset: 91034},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37763,9 +37823,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91132},
+										pos: position{line: 2893, col: 8, offset: 91194},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91133,
+											line: 2893, col: 9, offset: 91195,
 										},
 									},
 									&ruleRefExpr{
@@ -37781,44 +37841,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56242},
+			pos:  position{line: 1745, col: 1, offset: 56304},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56316},
+				pos: position{line: 1747, col: 5, offset: 56378},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56316},
+					pos: position{line: 1747, col: 5, offset: 56378},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56316},
+							pos: position{line: 1747, col: 5, offset: 56378},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56318},
+								pos: position{line: 1747, col: 7, offset: 56380},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2763, col: 13, offset: 87879},
+										pos:        position{line: 2764, col: 13, offset: 87941},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56327},
+										pos: position{line: 1747, col: 16, offset: 56389},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56329},
+											pos: position{line: 1747, col: 18, offset: 56391},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56330},
+													pos:        position{line: 1747, col: 19, offset: 56392},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 90845},
+													pos: position{line: 2878, col: 11, offset: 90907},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 90845},
+														pos: position{line: 2878, col: 11, offset: 90907},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 90845},
+															pos:        position{line: 2878, col: 11, offset: 90907},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37833,10 +37893,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56470},
+							pos:   position{line: 1748, col: 5, offset: 56532},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56476},
+								pos: position{line: 1748, col: 11, offset: 56538},
 								expr: &actionExpr{
 									pos: position{line: 1725, col: 5, offset: 55739},
 									run: (*parser).callonShortcutParagraph14,
@@ -37909,12 +37969,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1738, col: 13, offset: 56119},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37927,30 +37987,90 @@ var g = &grammar{
 													},
 												},
 											},
+											&notExpr{
+												pos: position{line: 1741, col: 5, offset: 56204},
+												expr: &seqExpr{
+													pos: position{line: 1741, col: 7, offset: 56206},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 1741, col: 7, offset: 56206},
+															expr: &actionExpr{
+																pos: position{line: 2874, col: 10, offset: 90846},
+																run: (*parser).callonShortcutParagraph37,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2874, col: 10, offset: 90846},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&choiceExpr{
+															pos: position{line: 2896, col: 8, offset: 91244},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2883, col: 12, offset: 91017},
+																	run: (*parser).callonShortcutParagraph40,
+																	expr: &choiceExpr{
+																		pos: position{line: 2883, col: 13, offset: 91018},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2883, col: 13, offset: 91018},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2883, col: 20, offset: 91025},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2883, col: 29, offset: 91034},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2893, col: 8, offset: 91194},
+																	expr: &anyMatcher{
+																		line: 2893, col: 9, offset: 91195,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56498},
+							pos:   position{line: 1749, col: 5, offset: 56560},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
-								run: (*parser).callonShortcutParagraph35,
+								pos: position{line: 1785, col: 5, offset: 57667},
+								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1785, col: 5, offset: 57667},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1785, col: 5, offset: 57667},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89377},
-												run: (*parser).callonShortcutParagraph38,
+												pos: position{line: 2824, col: 14, offset: 89439},
+												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89377},
+													pos: position{line: 2824, col: 14, offset: 89439},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89377},
+														pos:        position{line: 2824, col: 14, offset: 89439},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -37960,32 +38080,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
-											run: (*parser).callonShortcutParagraph41,
+											pos: position{line: 1786, col: 5, offset: 57691},
+											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91182},
+											pos: position{line: 2896, col: 8, offset: 91244},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 90955},
-													run: (*parser).callonShortcutParagraph43,
+													pos: position{line: 2883, col: 12, offset: 91017},
+													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 90956},
+														pos: position{line: 2883, col: 13, offset: 91018},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 90956},
+																pos:        position{line: 2883, col: 13, offset: 91018},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 90963},
+																pos:        position{line: 2883, col: 20, offset: 91025},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 90972},
+																pos:        position{line: 2883, col: 29, offset: 91034},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -37994,9 +38114,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -38006,47 +38126,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56532},
-							run: (*parser).callonShortcutParagraph50,
+							pos: position{line: 1750, col: 5, offset: 56594},
+							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56862},
+							pos:   position{line: 1757, col: 5, offset: 56924},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56873},
+								pos: position{line: 1757, col: 16, offset: 56935},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56883},
-									run: (*parser).callonShortcutParagraph53,
+									pos: position{line: 1758, col: 9, offset: 56945},
+									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56883},
+										pos: position{line: 1758, col: 9, offset: 56945},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91118},
+												pos: position{line: 2891, col: 11, offset: 91180},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91120,
+													line: 2891, col: 13, offset: 91182,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56899},
+												pos: position{line: 1759, col: 9, offset: 56961},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonShortcutParagraph58,
+													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91118},
+																pos: position{line: 2891, col: 11, offset: 91180},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91120,
+																	line: 2891, col: 13, offset: 91182,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
-																	run: (*parser).callonShortcutParagraph63,
+																	pos: position{line: 2874, col: 10, offset: 90846},
+																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38055,28 +38175,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
-																		run: (*parser).callonShortcutParagraph66,
+																		pos: position{line: 2883, col: 12, offset: 91017},
+																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38085,9 +38205,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -38097,24 +38217,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56918},
+												pos: position{line: 1760, col: 9, offset: 56980},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56919},
+													pos:  position{line: 1760, col: 10, offset: 56981},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56943},
+												pos: position{line: 1761, col: 9, offset: 57005},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
-													run: (*parser).callonShortcutParagraph76,
+													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
 														exprs: []interface{}{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2763, col: 13, offset: 87879},
+																	pos:        position{line: 2764, col: 13, offset: 87941},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38129,7 +38249,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 740, col: 5, offset: 23584},
-																			run: (*parser).callonShortcutParagraph82,
+																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
 																				pos: position{line: 740, col: 5, offset: 23584},
 																				exprs: []interface{}{
@@ -38138,7 +38258,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 740, col: 16, offset: 23595},
-																							run: (*parser).callonShortcutParagraph85,
+																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
 																								pos: position{line: 740, col: 16, offset: 23595},
 																								exprs: []interface{}{
@@ -38164,10 +38284,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph91,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38176,28 +38296,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph94,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38206,9 +38326,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38218,7 +38338,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 747, col: 5, offset: 23832},
-																			run: (*parser).callonShortcutParagraph101,
+																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
 																				exprs: []interface{}{
@@ -38227,7 +38347,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 747, col: 16, offset: 23843},
-																							run: (*parser).callonShortcutParagraph104,
+																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
 																								exprs: []interface{}{
@@ -38253,10 +38373,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph110,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38265,28 +38385,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph113,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38295,9 +38415,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38307,7 +38427,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 760, col: 26, offset: 24320},
-																			run: (*parser).callonShortcutParagraph120,
+																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
 																				pos: position{line: 760, col: 26, offset: 24320},
 																				exprs: []interface{}{
@@ -38322,7 +38442,7 @@ var g = &grammar{
 																						label: "language",
 																						expr: &actionExpr{
 																							pos: position{line: 764, col: 13, offset: 24456},
-																							run: (*parser).callonShortcutParagraph124,
+																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 764, col: 14, offset: 24457},
 																								expr: &charClassMatcher{
@@ -38338,10 +38458,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph128,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38350,28 +38470,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph131,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38380,9 +38500,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38392,7 +38512,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 754, col: 5, offset: 24079},
-																			run: (*parser).callonShortcutParagraph138,
+																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
 																				exprs: []interface{}{
@@ -38401,7 +38521,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 754, col: 16, offset: 24090},
-																							run: (*parser).callonShortcutParagraph141,
+																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
 																								exprs: []interface{}{
@@ -38427,10 +38547,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph147,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38439,28 +38559,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph150,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38469,9 +38589,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38481,7 +38601,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 769, col: 5, offset: 24616},
-																			run: (*parser).callonShortcutParagraph157,
+																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
 																				exprs: []interface{}{
@@ -38490,7 +38610,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 769, col: 16, offset: 24627},
-																							run: (*parser).callonShortcutParagraph160,
+																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
 																								exprs: []interface{}{
@@ -38516,10 +38636,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph166,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38528,28 +38648,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph169,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38558,9 +38678,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38570,7 +38690,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 783, col: 5, offset: 25092},
-																			run: (*parser).callonShortcutParagraph176,
+																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
 																				exprs: []interface{}{
@@ -38579,7 +38699,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 783, col: 16, offset: 25103},
-																							run: (*parser).callonShortcutParagraph179,
+																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
 																								exprs: []interface{}{
@@ -38605,10 +38725,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph185,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38617,28 +38737,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph188,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38647,9 +38767,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38659,7 +38779,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 790, col: 5, offset: 25344},
-																			run: (*parser).callonShortcutParagraph195,
+																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
 																				exprs: []interface{}{
@@ -38668,7 +38788,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 790, col: 16, offset: 25355},
-																							run: (*parser).callonShortcutParagraph198,
+																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
 																								exprs: []interface{}{
@@ -38694,10 +38814,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph204,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38706,28 +38826,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph207,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38736,9 +38856,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38748,7 +38868,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 797, col: 5, offset: 25594},
-																			run: (*parser).callonShortcutParagraph214,
+																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
 																				exprs: []interface{}{
@@ -38757,7 +38877,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 797, col: 16, offset: 25605},
-																							run: (*parser).callonShortcutParagraph217,
+																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
 																								exprs: []interface{}{
@@ -38783,10 +38903,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph223,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38795,28 +38915,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph226,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38825,9 +38945,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38837,7 +38957,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 804, col: 5, offset: 25840},
-																			run: (*parser).callonShortcutParagraph233,
+																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
 																				exprs: []interface{}{
@@ -38846,7 +38966,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 804, col: 16, offset: 25851},
-																							run: (*parser).callonShortcutParagraph236,
+																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
 																								exprs: []interface{}{
@@ -38872,10 +38992,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
-																							run: (*parser).callonShortcutParagraph242,
+																							pos: position{line: 2874, col: 10, offset: 90846},
+																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38884,28 +39004,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91182},
+																						pos: position{line: 2896, col: 8, offset: 91244},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 90955},
-																								run: (*parser).callonShortcutParagraph245,
+																								pos: position{line: 2883, col: 12, offset: 91017},
+																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 90956},
+																									pos: position{line: 2883, col: 13, offset: 91018},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 90956},
+																											pos:        position{line: 2883, col: 13, offset: 91018},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 90963},
+																											pos:        position{line: 2883, col: 20, offset: 91025},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 90972},
+																											pos:        position{line: 2883, col: 29, offset: 91034},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38914,9 +39034,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91132},
+																								pos: position{line: 2893, col: 8, offset: 91194},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91133,
+																									line: 2893, col: 9, offset: 91195,
 																								},
 																							},
 																						},
@@ -38932,7 +39052,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56967},
+												pos: position{line: 1762, col: 9, offset: 57029},
 												expr: &seqExpr{
 													pos: position{line: 1536, col: 27, offset: 49636},
 													exprs: []interface{}{
@@ -38945,10 +39065,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1536, col: 31, offset: 49640},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90784},
-																run: (*parser).callonShortcutParagraph256,
+																pos: position{line: 2874, col: 10, offset: 90846},
+																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90784},
+																	pos:        position{line: 2874, col: 10, offset: 90846},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38957,25 +39077,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
-															run: (*parser).callonShortcutParagraph258,
+															pos: position{line: 2883, col: 12, offset: 91017},
+															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38987,42 +39107,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 56999},
+												pos:   position{line: 1763, col: 9, offset: 57061},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57005},
+													pos: position{line: 1763, col: 15, offset: 57067},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2480, col: 22, offset: 79698},
-															run: (*parser).callonShortcutParagraph265,
+															pos: position{line: 2481, col: 22, offset: 79760},
+															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 22, offset: 79698},
+																pos: position{line: 2481, col: 22, offset: 79760},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2485, col: 31, offset: 79919},
+																		pos:        position{line: 2486, col: 31, offset: 79981},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2485, col: 36, offset: 79924},
+																		pos: position{line: 2486, col: 36, offset: 79986},
 																		expr: &litMatcher{
-																			pos:        position{line: 2485, col: 37, offset: 79925},
+																			pos:        position{line: 2486, col: 37, offset: 79987},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2480, col: 49, offset: 79725},
+																		pos:   position{line: 2481, col: 49, offset: 79787},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89310},
-																			run: (*parser).callonShortcutParagraph271,
+																			pos: position{line: 2820, col: 13, offset: 89372},
+																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89310},
+																				pos: position{line: 2820, col: 13, offset: 89372},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89310},
+																					pos:        position{line: 2820, col: 13, offset: 89372},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39032,28 +39152,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
-																				run: (*parser).callonShortcutParagraph275,
+																				pos: position{line: 2883, col: 12, offset: 91017},
+																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39062,9 +39182,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -39073,21 +39193,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
-															run: (*parser).callonShortcutParagraph282,
+															pos: position{line: 1785, col: 5, offset: 57667},
+															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1785, col: 5, offset: 57667},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1785, col: 5, offset: 57667},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89377},
-																			run: (*parser).callonShortcutParagraph285,
+																			pos: position{line: 2824, col: 14, offset: 89439},
+																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89377},
+																				pos: position{line: 2824, col: 14, offset: 89439},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89377},
+																					pos:        position{line: 2824, col: 14, offset: 89439},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39097,32 +39217,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
-																		run: (*parser).callonShortcutParagraph288,
+																		pos: position{line: 1786, col: 5, offset: 57691},
+																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
-																				run: (*parser).callonShortcutParagraph290,
+																				pos: position{line: 2883, col: 12, offset: 91017},
+																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39131,9 +39251,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -39155,18 +39275,18 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57209},
+			pos:  position{line: 1770, col: 1, offset: 57271},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57227},
+				pos: position{line: 1771, col: 5, offset: 57289},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57227},
+					pos: position{line: 1771, col: 5, offset: 57289},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57227},
+							pos:   position{line: 1771, col: 5, offset: 57289},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57233},
+								pos: position{line: 1771, col: 11, offset: 57295},
 								expr: &actionExpr{
 									pos: position{line: 1725, col: 5, offset: 55739},
 									run: (*parser).callonParagraph5,
@@ -39239,12 +39359,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1738, col: 13, offset: 56119},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90845},
+																	pos: position{line: 2878, col: 11, offset: 90907},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90845},
+																		pos: position{line: 2878, col: 11, offset: 90907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90845},
+																			pos:        position{line: 2878, col: 11, offset: 90907},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39257,30 +39377,90 @@ var g = &grammar{
 													},
 												},
 											},
+											&notExpr{
+												pos: position{line: 1741, col: 5, offset: 56204},
+												expr: &seqExpr{
+													pos: position{line: 1741, col: 7, offset: 56206},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 1741, col: 7, offset: 56206},
+															expr: &actionExpr{
+																pos: position{line: 2874, col: 10, offset: 90846},
+																run: (*parser).callonParagraph28,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2874, col: 10, offset: 90846},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&choiceExpr{
+															pos: position{line: 2896, col: 8, offset: 91244},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2883, col: 12, offset: 91017},
+																	run: (*parser).callonParagraph31,
+																	expr: &choiceExpr{
+																		pos: position{line: 2883, col: 13, offset: 91018},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2883, col: 13, offset: 91018},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2883, col: 20, offset: 91025},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2883, col: 29, offset: 91034},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2893, col: 8, offset: 91194},
+																	expr: &anyMatcher{
+																		line: 2893, col: 9, offset: 91195,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57256},
+							pos:   position{line: 1772, col: 5, offset: 57318},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
-								run: (*parser).callonParagraph26,
+								pos: position{line: 1785, col: 5, offset: 57667},
+								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1785, col: 5, offset: 57667},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1785, col: 5, offset: 57667},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89377},
-												run: (*parser).callonParagraph29,
+												pos: position{line: 2824, col: 14, offset: 89439},
+												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89377},
+													pos: position{line: 2824, col: 14, offset: 89439},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89377},
+														pos:        position{line: 2824, col: 14, offset: 89439},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39290,32 +39470,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
-											run: (*parser).callonParagraph32,
+											pos: position{line: 1786, col: 5, offset: 57691},
+											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91182},
+											pos: position{line: 2896, col: 8, offset: 91244},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 90955},
-													run: (*parser).callonParagraph34,
+													pos: position{line: 2883, col: 12, offset: 91017},
+													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 90956},
+														pos: position{line: 2883, col: 13, offset: 91018},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 90956},
+																pos:        position{line: 2883, col: 13, offset: 91018},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 90963},
+																pos:        position{line: 2883, col: 20, offset: 91025},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 90972},
+																pos:        position{line: 2883, col: 29, offset: 91034},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39324,9 +39504,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91132},
+													pos: position{line: 2893, col: 8, offset: 91194},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91133,
+														line: 2893, col: 9, offset: 91195,
 													},
 												},
 											},
@@ -39336,43 +39516,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57290},
+							pos:   position{line: 1773, col: 5, offset: 57352},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57301},
+								pos: position{line: 1773, col: 16, offset: 57363},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57311},
-									run: (*parser).callonParagraph43,
+									pos: position{line: 1774, col: 9, offset: 57373},
+									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57311},
+										pos: position{line: 1774, col: 9, offset: 57373},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91118},
+												pos: position{line: 2891, col: 11, offset: 91180},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91120,
+													line: 2891, col: 13, offset: 91182,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57326},
+												pos: position{line: 1775, col: 9, offset: 57388},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonParagraph48,
+													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91118},
+																pos: position{line: 2891, col: 11, offset: 91180},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91120,
+																	line: 2891, col: 13, offset: 91182,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
-																	run: (*parser).callonParagraph53,
+																	pos: position{line: 2874, col: 10, offset: 90846},
+																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39381,28 +39561,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91182},
+																pos: position{line: 2896, col: 8, offset: 91244},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 90955},
-																		run: (*parser).callonParagraph56,
+																		pos: position{line: 2883, col: 12, offset: 91017},
+																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 90956},
+																			pos: position{line: 2883, col: 13, offset: 91018},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 90956},
+																					pos:        position{line: 2883, col: 13, offset: 91018},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 90963},
+																					pos:        position{line: 2883, col: 20, offset: 91025},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 90972},
+																					pos:        position{line: 2883, col: 29, offset: 91034},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39411,9 +39591,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91132},
+																		pos: position{line: 2893, col: 8, offset: 91194},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91133,
+																			line: 2893, col: 9, offset: 91195,
 																		},
 																	},
 																},
@@ -39423,49 +39603,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57345},
+												pos: position{line: 1776, col: 9, offset: 57407},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57346},
+													pos:  position{line: 1776, col: 10, offset: 57408},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57370},
+												pos:   position{line: 1777, col: 9, offset: 57432},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57376},
+													pos: position{line: 1777, col: 15, offset: 57438},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2480, col: 22, offset: 79698},
-															run: (*parser).callonParagraph67,
+															pos: position{line: 2481, col: 22, offset: 79760},
+															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 22, offset: 79698},
+																pos: position{line: 2481, col: 22, offset: 79760},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2485, col: 31, offset: 79919},
+																		pos:        position{line: 2486, col: 31, offset: 79981},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2485, col: 36, offset: 79924},
+																		pos: position{line: 2486, col: 36, offset: 79986},
 																		expr: &litMatcher{
-																			pos:        position{line: 2485, col: 37, offset: 79925},
+																			pos:        position{line: 2486, col: 37, offset: 79987},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2480, col: 49, offset: 79725},
+																		pos:   position{line: 2481, col: 49, offset: 79787},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89310},
-																			run: (*parser).callonParagraph73,
+																			pos: position{line: 2820, col: 13, offset: 89372},
+																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89310},
+																				pos: position{line: 2820, col: 13, offset: 89372},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89310},
+																					pos:        position{line: 2820, col: 13, offset: 89372},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39475,28 +39655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
-																				run: (*parser).callonParagraph77,
+																				pos: position{line: 2883, col: 12, offset: 91017},
+																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39505,9 +39685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -39516,21 +39696,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
-															run: (*parser).callonParagraph84,
+															pos: position{line: 1785, col: 5, offset: 57667},
+															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1785, col: 5, offset: 57667},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1785, col: 5, offset: 57667},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89377},
-																			run: (*parser).callonParagraph87,
+																			pos: position{line: 2824, col: 14, offset: 89439},
+																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89377},
+																				pos: position{line: 2824, col: 14, offset: 89439},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89377},
+																					pos:        position{line: 2824, col: 14, offset: 89439},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39540,32 +39720,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
-																		run: (*parser).callonParagraph90,
+																		pos: position{line: 1786, col: 5, offset: 57691},
+																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91182},
+																		pos: position{line: 2896, col: 8, offset: 91244},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
-																				run: (*parser).callonParagraph92,
+																				pos: position{line: 2883, col: 12, offset: 91017},
+																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39574,9 +39754,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91132},
+																				pos: position{line: 2893, col: 8, offset: 91194},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91133,
+																					line: 2893, col: 9, offset: 91195,
 																				},
 																			},
 																		},
@@ -39598,16 +39778,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58115},
+			pos:  position{line: 1796, col: 1, offset: 58177},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58129},
+				pos: position{line: 1796, col: 15, offset: 58191},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58129},
+						pos:  position{line: 1796, col: 15, offset: 58191},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58149},
+						pos:  position{line: 1796, col: 35, offset: 58211},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39615,65 +39795,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58170},
+			pos:  position{line: 1798, col: 1, offset: 58232},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58195},
+				pos: position{line: 1799, col: 5, offset: 58257},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58195},
+					pos: position{line: 1799, col: 5, offset: 58257},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58195},
+							pos:   position{line: 1799, col: 5, offset: 58257},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58206},
+								pos: position{line: 1799, col: 16, offset: 58268},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58207},
+									pos: position{line: 1799, col: 17, offset: 58269},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58207},
+										pos:  position{line: 1799, col: 17, offset: 58269},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58275},
+							pos: position{line: 1802, col: 5, offset: 58337},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58277},
+								pos:        position{line: 1802, col: 7, offset: 58339},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58286},
+							pos:   position{line: 1803, col: 5, offset: 58348},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58304},
+								pos: position{line: 1804, col: 9, offset: 58366},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58304},
+										pos:  position{line: 1804, col: 9, offset: 58366},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58331},
+										pos:  position{line: 1805, col: 11, offset: 58393},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58359},
+										pos:  position{line: 1806, col: 11, offset: 58421},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58390},
+										pos:  position{line: 1807, col: 11, offset: 58452},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58418},
+										pos:  position{line: 1808, col: 11, offset: 58480},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58449},
+										pos:  position{line: 1809, col: 11, offset: 58511},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39685,36 +39865,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58569},
+			pos:  position{line: 1814, col: 1, offset: 58631},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58611},
+				pos: position{line: 1815, col: 5, offset: 58673},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58611},
+					pos: position{line: 1815, col: 5, offset: 58673},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58611},
+							pos:   position{line: 1815, col: 5, offset: 58673},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58622},
+								pos: position{line: 1815, col: 16, offset: 58684},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58623},
+									pos:  position{line: 1815, col: 17, offset: 58685},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58648},
+							pos:   position{line: 1816, col: 5, offset: 58710},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58657},
+								pos: position{line: 1816, col: 14, offset: 58719},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58657},
+										pos:  position{line: 1816, col: 14, offset: 58719},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58676},
+										pos:  position{line: 1816, col: 33, offset: 58738},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39726,32 +39906,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58907},
+			pos:  position{line: 1824, col: 1, offset: 58969},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 58932},
+				pos: position{line: 1825, col: 5, offset: 58994},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 58932},
+						pos:  position{line: 1825, col: 5, offset: 58994},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 58959},
+						pos:  position{line: 1826, col: 7, offset: 59021},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 58987},
+						pos:  position{line: 1827, col: 7, offset: 59049},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59019},
+						pos:  position{line: 1828, col: 7, offset: 59081},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59047},
+						pos:  position{line: 1829, col: 7, offset: 59109},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59068},
+						pos:  position{line: 1830, col: 7, offset: 59130},
 						name: "SuperscriptText",
 					},
 				},
@@ -39759,24 +39939,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59086},
+			pos:  position{line: 1832, col: 1, offset: 59148},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59111},
+				pos: position{line: 1833, col: 5, offset: 59173},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59111},
+						pos:  position{line: 1833, col: 5, offset: 59173},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59137},
+						pos:  position{line: 1834, col: 7, offset: 59199},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59165},
+						pos:  position{line: 1835, col: 7, offset: 59227},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59196},
+						pos:  position{line: 1836, col: 7, offset: 59258},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -39784,26 +39964,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59550},
+			pos:  position{line: 1850, col: 1, offset: 59612},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59576},
+				pos: position{line: 1851, col: 5, offset: 59638},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2772, col: 5, offset: 88026},
+						pos: position{line: 2773, col: 5, offset: 88088},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2772, col: 5, offset: 88026},
+							pos: position{line: 2773, col: 5, offset: 88088},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2772, col: 5, offset: 88026},
+									pos:   position{line: 2773, col: 5, offset: 88088},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2772, col: 11, offset: 88032},
+										pos: position{line: 2773, col: 11, offset: 88094},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2772, col: 11, offset: 88032},
+											pos: position{line: 2773, col: 11, offset: 88094},
 											expr: &charClassMatcher{
-												pos:        position{line: 2772, col: 11, offset: 88032},
+												pos:        position{line: 2773, col: 11, offset: 88094},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39813,36 +39993,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2775, col: 5, offset: 88090},
+									pos: position{line: 2776, col: 5, offset: 88152},
 									expr: &seqExpr{
-										pos: position{line: 2776, col: 9, offset: 88101},
+										pos: position{line: 2777, col: 9, offset: 88163},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2776, col: 9, offset: 88101},
+												pos:        position{line: 2777, col: 9, offset: 88163},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2777, col: 9, offset: 88150},
+												pos: position{line: 2778, col: 9, offset: 88212},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2781, col: 5, offset: 88230},
+									pos: position{line: 2782, col: 5, offset: 88292},
 									expr: &seqExpr{
-										pos: position{line: 2782, col: 9, offset: 88241},
+										pos: position{line: 2783, col: 9, offset: 88303},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2782, col: 9, offset: 88241},
+												pos:        position{line: 2783, col: 9, offset: 88303},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2782, col: 13, offset: 88245},
+												pos:        position{line: 2783, col: 13, offset: 88307},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39855,12 +40035,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2877, col: 11, offset: 90845},
+						pos: position{line: 2878, col: 11, offset: 90907},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2877, col: 11, offset: 90845},
+							pos: position{line: 2878, col: 11, offset: 90907},
 							expr: &charClassMatcher{
-								pos:        position{line: 2877, col: 11, offset: 90845},
+								pos:        position{line: 2878, col: 11, offset: 90907},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -39869,29 +40049,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59639},
+						pos:  position{line: 1853, col: 7, offset: 59701},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2498, col: 5, offset: 80415},
+						pos: position{line: 2499, col: 5, offset: 80477},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2498, col: 5, offset: 80415},
+							pos: position{line: 2499, col: 5, offset: 80477},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2498, col: 5, offset: 80415},
+									pos: position{line: 2499, col: 5, offset: 80477},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2501, col: 5, offset: 80486},
+									pos:        position{line: 2502, col: 5, offset: 80548},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2501, col: 10, offset: 80491},
+									pos: position{line: 2502, col: 10, offset: 80553},
 									expr: &charClassMatcher{
-										pos:        position{line: 2501, col: 11, offset: 80492},
+										pos:        position{line: 2502, col: 11, offset: 80554},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39902,29 +40082,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2507, col: 5, offset: 80684},
+						pos: position{line: 2508, col: 5, offset: 80746},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2507, col: 5, offset: 80684},
+							pos: position{line: 2508, col: 5, offset: 80746},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2507, col: 5, offset: 80684},
+									pos: position{line: 2508, col: 5, offset: 80746},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80755},
+									pos: position{line: 2511, col: 5, offset: 80817},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 80880},
+									pos:        position{line: 2515, col: 5, offset: 80942},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 9, offset: 80884},
+									pos: position{line: 2515, col: 9, offset: 80946},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 10, offset: 80885},
+										pos:        position{line: 2515, col: 10, offset: 80947},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39935,27 +40115,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2790, col: 5, offset: 88438},
+						pos: position{line: 2791, col: 5, offset: 88500},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2791, col: 9, offset: 88448},
+							pos: position{line: 2792, col: 9, offset: 88510},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2791, col: 10, offset: 88449},
+									pos:        position{line: 2792, col: 10, offset: 88511},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2793, col: 13, offset: 88546},
+									pos: position{line: 2794, col: 13, offset: 88608},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2793, col: 13, offset: 88546},
+											pos: position{line: 2794, col: 13, offset: 88608},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2796, col: 13, offset: 88646},
+											pos:        position{line: 2797, col: 13, offset: 88708},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -39963,20 +40143,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2796, col: 19, offset: 88652},
+									pos:        position{line: 2797, col: 19, offset: 88714},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2799, col: 13, offset: 88690},
+									pos: position{line: 2800, col: 13, offset: 88752},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2799, col: 13, offset: 88690},
+											pos: position{line: 2800, col: 13, offset: 88752},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2802, col: 14, offset: 88783},
+											pos:        position{line: 2803, col: 14, offset: 88845},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -39985,18 +40165,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2804, col: 12, offset: 88827},
+									pos: position{line: 2805, col: 12, offset: 88889},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2804, col: 12, offset: 88827},
+											pos:        position{line: 2805, col: 12, offset: 88889},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2804, col: 16, offset: 88831},
+											pos: position{line: 2805, col: 16, offset: 88893},
 											expr: &litMatcher{
-												pos:        position{line: 2804, col: 17, offset: 88832},
+												pos:        position{line: 2805, col: 17, offset: 88894},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40354,31 +40534,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2886, col: 18, offset: 91055},
+						pos: position{line: 2887, col: 18, offset: 91117},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2886, col: 18, offset: 91055},
+							pos: position{line: 2887, col: 18, offset: 91117},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40387,27 +40567,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 26, offset: 91063},
+									pos: position{line: 2887, col: 26, offset: 91125},
 									expr: &actionExpr{
-										pos: position{line: 2882, col: 12, offset: 90955},
+										pos: position{line: 2883, col: 12, offset: 91017},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 90956},
+											pos: position{line: 2883, col: 13, offset: 91018},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 90956},
+													pos:        position{line: 2883, col: 13, offset: 91018},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 90963},
+													pos:        position{line: 2883, col: 20, offset: 91025},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 90972},
+													pos:        position{line: 2883, col: 29, offset: 91034},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40420,31 +40600,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59806},
+						pos:  position{line: 1858, col: 7, offset: 59868},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59853},
+						pos:  position{line: 1859, col: 7, offset: 59915},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2467, col: 5, offset: 79244},
+						pos: position{line: 2468, col: 5, offset: 79306},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2467, col: 5, offset: 79244},
+							pos: position{line: 2468, col: 5, offset: 79306},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2467, col: 5, offset: 79244},
+									pos: position{line: 2468, col: 5, offset: 79306},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2470, col: 5, offset: 79320},
+									pos:   position{line: 2471, col: 5, offset: 79382},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2471, col: 9, offset: 79338},
+										pos: position{line: 2472, col: 9, offset: 79400},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2471, col: 10, offset: 79339},
+											pos:        position{line: 2472, col: 10, offset: 79401},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40495,10 +40675,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2812, col: 12, offset: 89092},
+						pos: position{line: 2813, col: 12, offset: 89154},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2812, col: 12, offset: 89092},
+							pos:        position{line: 2813, col: 12, offset: 89154},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40510,29 +40690,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60323},
+			pos:  position{line: 1877, col: 1, offset: 60385},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60351},
+				pos: position{line: 1878, col: 5, offset: 60413},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60351},
+					pos: position{line: 1878, col: 5, offset: 60413},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60276},
+							pos:        position{line: 1873, col: 38, offset: 60338},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60390},
+							pos:   position{line: 1879, col: 5, offset: 60452},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60400},
+								pos:  position{line: 1879, col: 15, offset: 60462},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60317},
+							pos:        position{line: 1875, col: 36, offset: 60379},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40543,44 +40723,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60560},
+			pos:  position{line: 1884, col: 1, offset: 60622},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60591},
+				pos: position{line: 1884, col: 32, offset: 60653},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60591},
+					pos:  position{line: 1884, col: 32, offset: 60653},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60622},
+			pos:  position{line: 1886, col: 1, offset: 60684},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60657},
+				pos: position{line: 1887, col: 5, offset: 60719},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60657},
+					pos: position{line: 1887, col: 5, offset: 60719},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60668},
+							pos: position{line: 1888, col: 5, offset: 60730},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60317},
+								pos:        position{line: 1875, col: 36, offset: 60379},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60705},
+							pos:   position{line: 1889, col: 5, offset: 60767},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60714},
+								pos:  position{line: 1889, col: 14, offset: 60776},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40590,29 +40770,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61394},
+			pos:  position{line: 1914, col: 1, offset: 61456},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61422},
+				pos: position{line: 1915, col: 5, offset: 61484},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61422},
+					pos: position{line: 1915, col: 5, offset: 61484},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 60948},
+							pos:        position{line: 1898, col: 5, offset: 61010},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 60957},
+							pos: position{line: 1899, col: 5, offset: 61019},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61075},
+							pos: position{line: 1903, col: 5, offset: 61137},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61077},
+								pos: position{line: 1903, col: 7, offset: 61139},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61078},
+									pos:        position{line: 1903, col: 8, offset: 61140},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40620,38 +40800,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61460},
+							pos:   position{line: 1916, col: 5, offset: 61522},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61470},
+								pos:  position{line: 1916, col: 15, offset: 61532},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61198},
+							pos:        position{line: 1906, col: 5, offset: 61260},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61207},
+							pos: position{line: 1907, col: 5, offset: 61269},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61208},
+								pos:        position{line: 1907, col: 6, offset: 61270},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61271},
+							pos: position{line: 1908, col: 5, offset: 61333},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61380},
+							pos: position{line: 1912, col: 5, offset: 61442},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61382},
+								pos: position{line: 1912, col: 7, offset: 61444},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 87879},
+									pos:        position{line: 2764, col: 13, offset: 87941},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40665,20 +40845,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61630},
+			pos:  position{line: 1921, col: 1, offset: 61692},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61667},
+				pos: position{line: 1922, col: 5, offset: 61729},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61667},
+					pos: position{line: 1922, col: 5, offset: 61729},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61667},
+							pos: position{line: 1922, col: 5, offset: 61729},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40687,18 +40867,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61706},
+							pos:   position{line: 1923, col: 5, offset: 61768},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61715},
+								pos: position{line: 1923, col: 14, offset: 61777},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61716},
+									pos:  position{line: 1923, col: 15, offset: 61778},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61750},
+							pos: position{line: 1924, col: 5, offset: 61812},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40707,49 +40887,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 61891},
+			pos:  position{line: 1930, col: 1, offset: 61953},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61926},
+				pos: position{line: 1931, col: 5, offset: 61988},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61926},
+					pos: position{line: 1931, col: 5, offset: 61988},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 61954},
+							pos: position{line: 1932, col: 5, offset: 62016},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61198},
+								pos: position{line: 1906, col: 5, offset: 61260},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61198},
+										pos:        position{line: 1906, col: 5, offset: 61260},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61207},
+										pos: position{line: 1907, col: 5, offset: 61269},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61208},
+											pos:        position{line: 1907, col: 6, offset: 61270},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61271},
+										pos: position{line: 1908, col: 5, offset: 61333},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61380},
+										pos: position{line: 1912, col: 5, offset: 61442},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61382},
+											pos: position{line: 1912, col: 7, offset: 61444},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 87879},
+												pos:        position{line: 2764, col: 13, offset: 87941},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40761,10 +40941,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 61991},
+							pos:   position{line: 1933, col: 5, offset: 62053},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62000},
+								pos:  position{line: 1933, col: 14, offset: 62062},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40774,35 +40954,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62088},
+			pos:  position{line: 1938, col: 1, offset: 62150},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62149},
+				pos: position{line: 1940, col: 5, offset: 62211},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62149},
+						pos: position{line: 1940, col: 5, offset: 62211},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62149},
+							pos: position{line: 1940, col: 5, offset: 62211},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62149},
+									pos:   position{line: 1940, col: 5, offset: 62211},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1846, col: 25, offset: 59558},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1846, col: 25, offset: 59558},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1846, col: 25, offset: 59558},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1846, col: 30, offset: 59563},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1846, col: 30, offset: 59563},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -40813,21 +40993,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62184},
+									pos:        position{line: 1940, col: 40, offset: 62246},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62189},
+									pos:   position{line: 1940, col: 45, offset: 62251},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62199},
+										pos:  position{line: 1940, col: 55, offset: 62261},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62228},
+									pos:        position{line: 1940, col: 84, offset: 62290},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -40836,21 +41016,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62392},
+						pos: position{line: 1944, col: 7, offset: 62454},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62392},
+							pos: position{line: 1944, col: 7, offset: 62454},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62392},
+									pos:   position{line: 1944, col: 7, offset: 62454},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40859,21 +41039,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62427},
+									pos:        position{line: 1944, col: 42, offset: 62489},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62432},
+									pos:   position{line: 1944, col: 47, offset: 62494},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62442},
+										pos:  position{line: 1944, col: 57, offset: 62504},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62471},
+									pos:        position{line: 1944, col: 86, offset: 62533},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40882,21 +41062,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62673},
+						pos: position{line: 1949, col: 7, offset: 62735},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62673},
+							pos: position{line: 1949, col: 7, offset: 62735},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62673},
+									pos:   position{line: 1949, col: 7, offset: 62735},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40905,21 +41085,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62708},
+									pos:        position{line: 1949, col: 42, offset: 62770},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62712},
+									pos:   position{line: 1949, col: 46, offset: 62774},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62722},
+										pos:  position{line: 1949, col: 56, offset: 62784},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62751},
+									pos:        position{line: 1949, col: 85, offset: 62813},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40932,29 +41112,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63231},
+			pos:  position{line: 1966, col: 1, offset: 63293},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63261},
+				pos: position{line: 1967, col: 5, offset: 63323},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63261},
+					pos: position{line: 1967, col: 5, offset: 63323},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63182},
+							pos:        position{line: 1962, col: 40, offset: 63244},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63302},
+							pos:   position{line: 1968, col: 5, offset: 63364},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63312},
+								pos:  position{line: 1968, col: 15, offset: 63374},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63225},
+							pos:        position{line: 1964, col: 38, offset: 63287},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -40965,44 +41145,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63477},
+			pos:  position{line: 1973, col: 1, offset: 63539},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63510},
+				pos: position{line: 1973, col: 34, offset: 63572},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63510},
+					pos:  position{line: 1973, col: 34, offset: 63572},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63542},
+			pos:  position{line: 1975, col: 1, offset: 63604},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63579},
+				pos: position{line: 1976, col: 5, offset: 63641},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63579},
+					pos: position{line: 1976, col: 5, offset: 63641},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63590},
+							pos: position{line: 1977, col: 5, offset: 63652},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63225},
+								pos:        position{line: 1964, col: 38, offset: 63287},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63629},
+							pos:   position{line: 1978, col: 5, offset: 63691},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63638},
+								pos:  position{line: 1978, col: 14, offset: 63700},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41012,29 +41192,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64322},
+			pos:  position{line: 2004, col: 1, offset: 64384},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64352},
+				pos: position{line: 2005, col: 5, offset: 64414},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64352},
+					pos: position{line: 2005, col: 5, offset: 64414},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 63880},
+							pos:        position{line: 1987, col: 5, offset: 63942},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63889},
+							pos: position{line: 1988, col: 5, offset: 63951},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64009},
+							pos: position{line: 1992, col: 5, offset: 64071},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64011},
+								pos: position{line: 1992, col: 7, offset: 64073},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64012},
+									pos:        position{line: 1992, col: 8, offset: 64074},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41042,38 +41222,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64392},
+							pos:   position{line: 2006, col: 5, offset: 64454},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64402},
+								pos:  position{line: 2006, col: 15, offset: 64464},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64122},
+							pos:        position{line: 1996, col: 5, offset: 64184},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64131},
+							pos: position{line: 1997, col: 5, offset: 64193},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64132},
+								pos:        position{line: 1997, col: 6, offset: 64194},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64197},
+							pos: position{line: 1998, col: 5, offset: 64259},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64308},
+							pos: position{line: 2002, col: 5, offset: 64370},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64310},
+								pos: position{line: 2002, col: 7, offset: 64372},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 87879},
+									pos:        position{line: 2764, col: 13, offset: 87941},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41087,20 +41267,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64569},
+			pos:  position{line: 2011, col: 1, offset: 64631},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64607},
+				pos: position{line: 2012, col: 5, offset: 64669},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64607},
+					pos: position{line: 2012, col: 5, offset: 64669},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64607},
+							pos: position{line: 2012, col: 5, offset: 64669},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41109,18 +41289,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64646},
+							pos:   position{line: 2013, col: 5, offset: 64708},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64655},
+								pos: position{line: 2013, col: 14, offset: 64717},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64656},
+									pos:  position{line: 2013, col: 15, offset: 64718},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64691},
+							pos: position{line: 2014, col: 5, offset: 64753},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41129,49 +41309,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64832},
+			pos:  position{line: 2020, col: 1, offset: 64894},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64869},
+				pos: position{line: 2021, col: 5, offset: 64931},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64869},
+					pos: position{line: 2021, col: 5, offset: 64931},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 64880},
+							pos: position{line: 2022, col: 5, offset: 64942},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64122},
+								pos: position{line: 1996, col: 5, offset: 64184},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64122},
+										pos:        position{line: 1996, col: 5, offset: 64184},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64131},
+										pos: position{line: 1997, col: 5, offset: 64193},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64132},
+											pos:        position{line: 1997, col: 6, offset: 64194},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64197},
+										pos: position{line: 1998, col: 5, offset: 64259},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64308},
+										pos: position{line: 2002, col: 5, offset: 64370},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64310},
+											pos: position{line: 2002, col: 7, offset: 64372},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 87879},
+												pos:        position{line: 2764, col: 13, offset: 87941},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41183,10 +41363,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 64919},
+							pos:   position{line: 2023, col: 5, offset: 64981},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 64928},
+								pos:  position{line: 2023, col: 14, offset: 64990},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41196,35 +41376,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65016},
+			pos:  position{line: 2028, col: 1, offset: 65078},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65081},
+				pos: position{line: 2030, col: 5, offset: 65143},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65081},
+						pos: position{line: 2030, col: 5, offset: 65143},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65081},
+							pos: position{line: 2030, col: 5, offset: 65143},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65081},
+									pos:   position{line: 2030, col: 5, offset: 65143},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1846, col: 25, offset: 59558},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1846, col: 25, offset: 59558},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1846, col: 25, offset: 59558},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1846, col: 30, offset: 59563},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1846, col: 30, offset: 59563},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41235,21 +41415,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65116},
+									pos:        position{line: 2030, col: 40, offset: 65178},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65121},
+									pos:   position{line: 2030, col: 45, offset: 65183},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65131},
+										pos:  position{line: 2030, col: 55, offset: 65193},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65162},
+									pos:        position{line: 2030, col: 86, offset: 65224},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41258,21 +41438,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65327},
+						pos: position{line: 2034, col: 7, offset: 65389},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65327},
+							pos: position{line: 2034, col: 7, offset: 65389},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65327},
+									pos:   position{line: 2034, col: 7, offset: 65389},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41281,21 +41461,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65362},
+									pos:        position{line: 2034, col: 42, offset: 65424},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65367},
+									pos:   position{line: 2034, col: 47, offset: 65429},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65377},
+										pos:  position{line: 2034, col: 57, offset: 65439},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65408},
+									pos:        position{line: 2034, col: 88, offset: 65470},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41304,21 +41484,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65649},
+						pos: position{line: 2039, col: 7, offset: 65711},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65649},
+							pos: position{line: 2039, col: 7, offset: 65711},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65649},
+									pos:   position{line: 2039, col: 7, offset: 65711},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41327,21 +41507,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65684},
+									pos:        position{line: 2039, col: 42, offset: 65746},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65688},
+									pos:   position{line: 2039, col: 46, offset: 65750},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65698},
+										pos:  position{line: 2039, col: 56, offset: 65760},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65729},
+									pos:        position{line: 2039, col: 87, offset: 65791},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41354,29 +41534,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66293},
+			pos:  position{line: 2056, col: 1, offset: 66355},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66326},
+				pos: position{line: 2057, col: 5, offset: 66388},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66326},
+					pos: position{line: 2057, col: 5, offset: 66388},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66241},
+							pos:        position{line: 2052, col: 43, offset: 66303},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66370},
+							pos:   position{line: 2058, col: 5, offset: 66432},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66380},
+								pos:  position{line: 2058, col: 15, offset: 66442},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66287},
+							pos:        position{line: 2054, col: 41, offset: 66349},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41387,44 +41567,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66555},
+			pos:  position{line: 2063, col: 1, offset: 66617},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66591},
+				pos: position{line: 2063, col: 37, offset: 66653},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66591},
+					pos:  position{line: 2063, col: 37, offset: 66653},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66658},
+			pos:  position{line: 2065, col: 1, offset: 66720},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66698},
+				pos: position{line: 2066, col: 5, offset: 66760},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66698},
+					pos: position{line: 2066, col: 5, offset: 66760},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66709},
+							pos: position{line: 2067, col: 5, offset: 66771},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66287},
+								pos:        position{line: 2054, col: 41, offset: 66349},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66751},
+							pos:   position{line: 2068, col: 5, offset: 66813},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66760},
+								pos:  position{line: 2068, col: 14, offset: 66822},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41434,33 +41614,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67302},
+			pos:  position{line: 2086, col: 1, offset: 67364},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67347},
+				pos: position{line: 2087, col: 5, offset: 67409},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67347},
+						pos: position{line: 2087, col: 5, offset: 67409},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67348},
+							pos:  position{line: 2087, col: 6, offset: 67410},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67367},
+						pos:        position{line: 2088, col: 5, offset: 67429},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67375},
+						pos: position{line: 2089, col: 5, offset: 67437},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67489},
+						pos: position{line: 2093, col: 5, offset: 67551},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67491},
+							pos: position{line: 2093, col: 7, offset: 67553},
 							expr: &charClassMatcher{
-								pos:        position{line: 2763, col: 13, offset: 87879},
+								pos:        position{line: 2764, col: 13, offset: 87941},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41473,29 +41653,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67508},
+			pos:  position{line: 2096, col: 1, offset: 67570},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67541},
+				pos: position{line: 2097, col: 5, offset: 67603},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67541},
+					pos: position{line: 2097, col: 5, offset: 67603},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67104},
+							pos:        position{line: 2079, col: 5, offset: 67166},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67113},
+							pos: position{line: 2080, col: 5, offset: 67175},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67236},
+							pos: position{line: 2084, col: 5, offset: 67298},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67238},
+								pos: position{line: 2084, col: 7, offset: 67300},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67239},
+									pos:        position{line: 2084, col: 8, offset: 67301},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41503,15 +41683,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67585},
+							pos:   position{line: 2098, col: 5, offset: 67647},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67595},
+								pos:  position{line: 2098, col: 15, offset: 67657},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67634},
+							pos:  position{line: 2099, col: 5, offset: 67696},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41520,20 +41700,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67771},
+			pos:  position{line: 2103, col: 1, offset: 67833},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67812},
+				pos: position{line: 2104, col: 5, offset: 67874},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67812},
+					pos: position{line: 2104, col: 5, offset: 67874},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67812},
+							pos: position{line: 2104, col: 5, offset: 67874},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41542,18 +41722,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67851},
+							pos:   position{line: 2105, col: 5, offset: 67913},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 67860},
+								pos: position{line: 2105, col: 14, offset: 67922},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 67861},
+									pos:  position{line: 2105, col: 15, offset: 67923},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67899},
+							pos: position{line: 2106, col: 5, offset: 67961},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41562,31 +41742,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68040},
+			pos:  position{line: 2112, col: 1, offset: 68102},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68080},
+				pos: position{line: 2113, col: 5, offset: 68142},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68080},
+					pos: position{line: 2113, col: 5, offset: 68142},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68091},
+							pos: position{line: 2114, col: 5, offset: 68153},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68092},
+								pos:  position{line: 2114, col: 6, offset: 68154},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68133},
+							pos:   position{line: 2115, col: 5, offset: 68195},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68142},
+								pos:  position{line: 2115, col: 14, offset: 68204},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41596,35 +41776,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68230},
+			pos:  position{line: 2120, col: 1, offset: 68292},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68301},
+				pos: position{line: 2122, col: 5, offset: 68363},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68301},
+						pos: position{line: 2122, col: 5, offset: 68363},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68301},
+							pos: position{line: 2122, col: 5, offset: 68363},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68301},
+									pos:   position{line: 2122, col: 5, offset: 68363},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1846, col: 25, offset: 59558},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1846, col: 25, offset: 59558},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1846, col: 25, offset: 59558},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1846, col: 30, offset: 59563},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1846, col: 30, offset: 59563},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41635,21 +41815,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68336},
+									pos:        position{line: 2122, col: 40, offset: 68398},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68341},
+									pos:   position{line: 2122, col: 45, offset: 68403},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68351},
+										pos:  position{line: 2122, col: 55, offset: 68413},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68385},
+									pos:        position{line: 2122, col: 89, offset: 68447},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41658,21 +41838,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68554},
+						pos: position{line: 2126, col: 7, offset: 68616},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68554},
+							pos: position{line: 2126, col: 7, offset: 68616},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68554},
+									pos:   position{line: 2126, col: 7, offset: 68616},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41681,21 +41861,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68589},
+									pos:        position{line: 2126, col: 42, offset: 68651},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68594},
+									pos:   position{line: 2126, col: 47, offset: 68656},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68604},
+										pos:  position{line: 2126, col: 57, offset: 68666},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68638},
+									pos:        position{line: 2126, col: 91, offset: 68700},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41704,21 +41884,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68844},
+						pos: position{line: 2131, col: 7, offset: 68906},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68844},
+							pos: position{line: 2131, col: 7, offset: 68906},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68844},
+									pos:   position{line: 2131, col: 7, offset: 68906},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41727,21 +41907,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 68879},
+									pos:        position{line: 2131, col: 42, offset: 68941},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 68883},
+									pos:   position{line: 2131, col: 46, offset: 68945},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 68893},
+										pos:  position{line: 2131, col: 56, offset: 68955},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 68927},
+									pos:        position{line: 2131, col: 90, offset: 68989},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41754,29 +41934,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69412},
+			pos:  position{line: 2148, col: 1, offset: 69474},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69442},
+				pos: position{line: 2149, col: 5, offset: 69504},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69442},
+					pos: position{line: 2149, col: 5, offset: 69504},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69363},
+							pos:        position{line: 2144, col: 40, offset: 69425},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69483},
+							pos:   position{line: 2150, col: 5, offset: 69545},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69493},
+								pos:  position{line: 2150, col: 15, offset: 69555},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69406},
+							pos:        position{line: 2146, col: 38, offset: 69468},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -41787,44 +41967,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69659},
+			pos:  position{line: 2155, col: 1, offset: 69721},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69692},
+				pos: position{line: 2155, col: 34, offset: 69754},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69692},
+					pos:  position{line: 2155, col: 34, offset: 69754},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69723},
+			pos:  position{line: 2157, col: 1, offset: 69785},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69792},
+				pos: position{line: 2158, col: 5, offset: 69854},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69792},
+					pos: position{line: 2158, col: 5, offset: 69854},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69803},
+							pos: position{line: 2159, col: 5, offset: 69865},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69406},
+								pos:        position{line: 2146, col: 38, offset: 69468},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69842},
+							pos:   position{line: 2160, col: 5, offset: 69904},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69851},
+								pos:  position{line: 2160, col: 14, offset: 69913},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41834,29 +42014,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70533},
+			pos:  position{line: 2185, col: 1, offset: 70595},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70563},
+				pos: position{line: 2186, col: 5, offset: 70625},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70563},
+					pos: position{line: 2186, col: 5, offset: 70625},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70099},
+							pos:        position{line: 2169, col: 5, offset: 70161},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70108},
+							pos: position{line: 2170, col: 5, offset: 70170},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70228},
+							pos: position{line: 2174, col: 5, offset: 70290},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70230},
+								pos: position{line: 2174, col: 7, offset: 70292},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70231},
+									pos:        position{line: 2174, col: 8, offset: 70293},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -41864,38 +42044,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70603},
+							pos:   position{line: 2187, col: 5, offset: 70665},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70613},
+								pos:  position{line: 2187, col: 15, offset: 70675},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70336},
+							pos:        position{line: 2177, col: 5, offset: 70398},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70344},
+							pos: position{line: 2178, col: 5, offset: 70406},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70345},
+								pos:        position{line: 2178, col: 6, offset: 70407},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70408},
+							pos: position{line: 2179, col: 5, offset: 70470},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70519},
+							pos: position{line: 2183, col: 5, offset: 70581},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70521},
+								pos: position{line: 2183, col: 7, offset: 70583},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 87879},
+									pos:        position{line: 2764, col: 13, offset: 87941},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41909,20 +42089,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70780},
+			pos:  position{line: 2192, col: 1, offset: 70842},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70818},
+				pos: position{line: 2193, col: 5, offset: 70880},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70818},
+					pos: position{line: 2193, col: 5, offset: 70880},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70818},
+							pos: position{line: 2193, col: 5, offset: 70880},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90784},
+								pos: position{line: 2874, col: 10, offset: 90846},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90784},
+									pos:        position{line: 2874, col: 10, offset: 90846},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41931,18 +42111,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70857},
+							pos:   position{line: 2194, col: 5, offset: 70919},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 70866},
+								pos: position{line: 2194, col: 14, offset: 70928},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 70867},
+									pos:  position{line: 2194, col: 15, offset: 70929},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70903},
+							pos: position{line: 2195, col: 5, offset: 70965},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -41951,49 +42131,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71044},
+			pos:  position{line: 2201, col: 1, offset: 71106},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71081},
+				pos: position{line: 2202, col: 5, offset: 71143},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71081},
+					pos: position{line: 2202, col: 5, offset: 71143},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71092},
+							pos: position{line: 2203, col: 5, offset: 71154},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70336},
+								pos: position{line: 2177, col: 5, offset: 70398},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70336},
+										pos:        position{line: 2177, col: 5, offset: 70398},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70344},
+										pos: position{line: 2178, col: 5, offset: 70406},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70345},
+											pos:        position{line: 2178, col: 6, offset: 70407},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70408},
+										pos: position{line: 2179, col: 5, offset: 70470},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70519},
+										pos: position{line: 2183, col: 5, offset: 70581},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70521},
+											pos: position{line: 2183, col: 7, offset: 70583},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 87879},
+												pos:        position{line: 2764, col: 13, offset: 87941},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42005,10 +42185,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71131},
+							pos:   position{line: 2204, col: 5, offset: 71193},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71140},
+								pos:  position{line: 2204, col: 14, offset: 71202},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42018,35 +42198,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71228},
+			pos:  position{line: 2209, col: 1, offset: 71290},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71292},
+				pos: position{line: 2211, col: 5, offset: 71354},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71292},
+						pos: position{line: 2211, col: 5, offset: 71354},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71292},
+							pos: position{line: 2211, col: 5, offset: 71354},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71292},
+									pos:   position{line: 2211, col: 5, offset: 71354},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1846, col: 25, offset: 59558},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1846, col: 25, offset: 59558},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1846, col: 25, offset: 59558},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1846, col: 30, offset: 59563},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1846, col: 30, offset: 59563},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42057,21 +42237,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71327},
+									pos:        position{line: 2211, col: 40, offset: 71389},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71332},
+									pos:   position{line: 2211, col: 45, offset: 71394},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71342},
+										pos:  position{line: 2211, col: 55, offset: 71404},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71373},
+									pos:        position{line: 2211, col: 86, offset: 71435},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42080,21 +42260,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71538},
+						pos: position{line: 2215, col: 7, offset: 71600},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71538},
+							pos: position{line: 2215, col: 7, offset: 71600},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71538},
+									pos:   position{line: 2215, col: 7, offset: 71600},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42103,21 +42283,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71573},
+									pos:        position{line: 2215, col: 42, offset: 71635},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71578},
+									pos:   position{line: 2215, col: 47, offset: 71640},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71588},
+										pos:  position{line: 2215, col: 57, offset: 71650},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71619},
+									pos:        position{line: 2215, col: 88, offset: 71681},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42126,21 +42306,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71822},
+						pos: position{line: 2220, col: 7, offset: 71884},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71822},
+							pos: position{line: 2220, col: 7, offset: 71884},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71822},
+									pos:   position{line: 2220, col: 7, offset: 71884},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1842, col: 25, offset: 59485},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1842, col: 25, offset: 59485},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1842, col: 25, offset: 59485},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42149,21 +42329,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71857},
+									pos:        position{line: 2220, col: 42, offset: 71919},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 71861},
+									pos:   position{line: 2220, col: 46, offset: 71923},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 71871},
+										pos:  position{line: 2220, col: 56, offset: 71933},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 71902},
+									pos:        position{line: 2220, col: 87, offset: 71964},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42176,29 +42356,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72169},
+			pos:  position{line: 2227, col: 1, offset: 72231},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72191},
+				pos: position{line: 2228, col: 5, offset: 72253},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72191},
+					pos: position{line: 2228, col: 5, offset: 72253},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2234, col: 27, offset: 72468},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72218},
+							pos:   position{line: 2229, col: 5, offset: 72280},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72227},
+								pos:  position{line: 2229, col: 14, offset: 72289},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2234, col: 27, offset: 72468},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42209,32 +42389,32 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72411},
+			pos:  position{line: 2236, col: 1, offset: 72473},
 			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72435},
+				pos: position{line: 2236, col: 25, offset: 72497},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72435},
+						pos:  position{line: 2236, col: 25, offset: 72497},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72487},
+						pos: position{line: 2238, col: 21, offset: 72549},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2237, col: 21, offset: 72487},
+							pos:   position{line: 2238, col: 21, offset: 72549},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2237, col: 30, offset: 72496},
+								pos: position{line: 2238, col: 30, offset: 72558},
 								expr: &choiceExpr{
-									pos: position{line: 2242, col: 5, offset: 72630},
+									pos: position{line: 2243, col: 5, offset: 72692},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2242, col: 5, offset: 72630},
+											pos: position{line: 2243, col: 5, offset: 72692},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2242, col: 5, offset: 72630},
+												pos: position{line: 2243, col: 5, offset: 72692},
 												expr: &charClassMatcher{
-													pos:        position{line: 2242, col: 5, offset: 72630},
+													pos:        position{line: 2243, col: 5, offset: 72692},
 													val:        "[^\\r\\n ~<>&]",
 													chars:      []rune{'\r', '\n', ' ', '~', '<', '>', '&'},
 													ignoreCase: false,
@@ -42243,23 +42423,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2467, col: 5, offset: 79244},
+											pos: position{line: 2468, col: 5, offset: 79306},
 											run: (*parser).callonSubscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2467, col: 5, offset: 79244},
+												pos: position{line: 2468, col: 5, offset: 79306},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2467, col: 5, offset: 79244},
+														pos: position{line: 2468, col: 5, offset: 79306},
 														run: (*parser).callonSubscriptTextElement12,
 													},
 													&labeledExpr{
-														pos:   position{line: 2470, col: 5, offset: 79320},
+														pos:   position{line: 2471, col: 5, offset: 79382},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2471, col: 9, offset: 79338},
+															pos: position{line: 2472, col: 9, offset: 79400},
 															run: (*parser).callonSubscriptTextElement14,
 															expr: &charClassMatcher{
-																pos:        position{line: 2471, col: 10, offset: 79339},
+																pos:        position{line: 2472, col: 10, offset: 79401},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42271,10 +42451,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2246, col: 7, offset: 72708},
+											pos: position{line: 2247, col: 7, offset: 72770},
 											run: (*parser).callonSubscriptTextElement16,
 											expr: &charClassMatcher{
-												pos:        position{line: 2246, col: 7, offset: 72708},
+												pos:        position{line: 2247, col: 7, offset: 72770},
 												val:        "[<>&]",
 												chars:      []rune{'<', '>', '&'},
 												ignoreCase: false,
@@ -42291,23 +42471,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2250, col: 1, offset: 72807},
+			pos:  position{line: 2251, col: 1, offset: 72869},
 			expr: &actionExpr{
-				pos: position{line: 2252, col: 5, offset: 72874},
+				pos: position{line: 2253, col: 5, offset: 72936},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2252, col: 5, offset: 72874},
+					pos: position{line: 2253, col: 5, offset: 72936},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2252, col: 5, offset: 72874},
+							pos:   position{line: 2253, col: 5, offset: 72936},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1842, col: 25, offset: 59485},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1842, col: 25, offset: 59485},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1842, col: 25, offset: 59485},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42316,21 +42496,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2234, col: 27, offset: 72468},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 72942},
+							pos:   position{line: 2255, col: 5, offset: 73004},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2254, col: 14, offset: 72951},
+								pos:  position{line: 2255, col: 14, offset: 73013},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2234, col: 27, offset: 72468},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42341,29 +42521,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2262, col: 1, offset: 73214},
+			pos:  position{line: 2263, col: 1, offset: 73276},
 			expr: &actionExpr{
-				pos: position{line: 2263, col: 5, offset: 73238},
+				pos: position{line: 2264, col: 5, offset: 73300},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2263, col: 5, offset: 73238},
+					pos: position{line: 2264, col: 5, offset: 73300},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73465},
+							pos:        position{line: 2270, col: 29, offset: 73527},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2264, col: 5, offset: 73268},
+							pos:   position{line: 2265, col: 5, offset: 73330},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2264, col: 14, offset: 73277},
+								pos:  position{line: 2265, col: 14, offset: 73339},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73465},
+							pos:        position{line: 2270, col: 29, offset: 73527},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42374,32 +42554,32 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2271, col: 1, offset: 73470},
+			pos:  position{line: 2272, col: 1, offset: 73532},
 			expr: &choiceExpr{
-				pos: position{line: 2271, col: 27, offset: 73496},
+				pos: position{line: 2272, col: 27, offset: 73558},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2271, col: 27, offset: 73496},
+						pos:  position{line: 2272, col: 27, offset: 73558},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2273, col: 23, offset: 73552},
+						pos: position{line: 2274, col: 23, offset: 73614},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2273, col: 23, offset: 73552},
+							pos:   position{line: 2274, col: 23, offset: 73614},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2273, col: 32, offset: 73561},
+								pos: position{line: 2274, col: 32, offset: 73623},
 								expr: &choiceExpr{
-									pos: position{line: 2278, col: 5, offset: 73699},
+									pos: position{line: 2279, col: 5, offset: 73761},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2278, col: 5, offset: 73699},
+											pos: position{line: 2279, col: 5, offset: 73761},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2278, col: 5, offset: 73699},
+												pos: position{line: 2279, col: 5, offset: 73761},
 												expr: &charClassMatcher{
-													pos:        position{line: 2278, col: 5, offset: 73699},
+													pos:        position{line: 2279, col: 5, offset: 73761},
 													val:        "[^\\r\\n ^<>&]",
 													chars:      []rune{'\r', '\n', ' ', '^', '<', '>', '&'},
 													ignoreCase: false,
@@ -42408,23 +42588,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2467, col: 5, offset: 79244},
+											pos: position{line: 2468, col: 5, offset: 79306},
 											run: (*parser).callonSuperscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2467, col: 5, offset: 79244},
+												pos: position{line: 2468, col: 5, offset: 79306},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2467, col: 5, offset: 79244},
+														pos: position{line: 2468, col: 5, offset: 79306},
 														run: (*parser).callonSuperscriptTextElement12,
 													},
 													&labeledExpr{
-														pos:   position{line: 2470, col: 5, offset: 79320},
+														pos:   position{line: 2471, col: 5, offset: 79382},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2471, col: 9, offset: 79338},
+															pos: position{line: 2472, col: 9, offset: 79400},
 															run: (*parser).callonSuperscriptTextElement14,
 															expr: &charClassMatcher{
-																pos:        position{line: 2471, col: 10, offset: 79339},
+																pos:        position{line: 2472, col: 10, offset: 79401},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42436,10 +42616,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2282, col: 7, offset: 73777},
+											pos: position{line: 2283, col: 7, offset: 73839},
 											run: (*parser).callonSuperscriptTextElement16,
 											expr: &charClassMatcher{
-												pos:        position{line: 2282, col: 7, offset: 73777},
+												pos:        position{line: 2283, col: 7, offset: 73839},
 												val:        "[<>&]",
 												chars:      []rune{'<', '>', '&'},
 												ignoreCase: false,
@@ -42456,23 +42636,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2286, col: 1, offset: 73876},
+			pos:  position{line: 2287, col: 1, offset: 73938},
 			expr: &actionExpr{
-				pos: position{line: 2288, col: 5, offset: 73948},
+				pos: position{line: 2289, col: 5, offset: 74010},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2288, col: 5, offset: 73948},
+					pos: position{line: 2289, col: 5, offset: 74010},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 73948},
+							pos:   position{line: 2289, col: 5, offset: 74010},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1842, col: 25, offset: 59485},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1842, col: 25, offset: 59485},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1842, col: 25, offset: 59485},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42481,21 +42661,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73465},
+							pos:        position{line: 2270, col: 29, offset: 73527},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2290, col: 5, offset: 74018},
+							pos:   position{line: 2291, col: 5, offset: 74080},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2290, col: 14, offset: 74027},
+								pos:  position{line: 2291, col: 14, offset: 74089},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73465},
+							pos:        position{line: 2270, col: 29, offset: 73527},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42506,27 +42686,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2299, col: 1, offset: 74496},
+			pos:  position{line: 2300, col: 1, offset: 74558},
 			expr: &actionExpr{
-				pos: position{line: 2300, col: 5, offset: 74512},
+				pos: position{line: 2301, col: 5, offset: 74574},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2300, col: 5, offset: 74512},
+					pos: position{line: 2301, col: 5, offset: 74574},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2300, col: 5, offset: 74512},
+							pos: position{line: 2301, col: 5, offset: 74574},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74575},
+							pos:   position{line: 2304, col: 5, offset: 74637},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2303, col: 12, offset: 74582},
+								pos: position{line: 2304, col: 12, offset: 74644},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2303, col: 12, offset: 74582},
+									pos: position{line: 2304, col: 12, offset: 74644},
 									expr: &litMatcher{
-										pos:        position{line: 2303, col: 13, offset: 74583},
+										pos:        position{line: 2304, col: 13, offset: 74645},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42535,16 +42715,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2307, col: 5, offset: 74691},
+							pos: position{line: 2308, col: 5, offset: 74753},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 90845},
+							pos: position{line: 2878, col: 11, offset: 90907},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 90845},
+								pos: position{line: 2878, col: 11, offset: 90907},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 90845},
+									pos:        position{line: 2878, col: 11, offset: 90907},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42553,36 +42733,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2311, col: 12, offset: 74850},
+							pos:   position{line: 2312, col: 12, offset: 74912},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2311, col: 19, offset: 74857},
+								pos:  position{line: 2312, col: 19, offset: 74919},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42591,9 +42771,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -42604,24 +42784,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2315, col: 1, offset: 74953},
+			pos:  position{line: 2316, col: 1, offset: 75015},
 			expr: &actionExpr{
-				pos: position{line: 2316, col: 5, offset: 74974},
+				pos: position{line: 2317, col: 5, offset: 75036},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2316, col: 5, offset: 74974},
+					pos: position{line: 2317, col: 5, offset: 75036},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2316, col: 5, offset: 74974},
+							pos: position{line: 2317, col: 5, offset: 75036},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2321, col: 5, offset: 75089},
+							pos:   position{line: 2322, col: 5, offset: 75151},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2321, col: 14, offset: 75098},
+								pos: position{line: 2322, col: 14, offset: 75160},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2321, col: 15, offset: 75099},
+									pos:  position{line: 2322, col: 15, offset: 75161},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42632,38 +42812,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2325, col: 1, offset: 75180},
+			pos:  position{line: 2326, col: 1, offset: 75242},
 			expr: &actionExpr{
-				pos: position{line: 2326, col: 5, offset: 75207},
+				pos: position{line: 2327, col: 5, offset: 75269},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2326, col: 5, offset: 75207},
+					pos: position{line: 2327, col: 5, offset: 75269},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2326, col: 5, offset: 75207},
+							pos: position{line: 2327, col: 5, offset: 75269},
 							expr: &choiceExpr{
-								pos: position{line: 2895, col: 8, offset: 91182},
+								pos: position{line: 2896, col: 8, offset: 91244},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 90955},
+										pos: position{line: 2883, col: 12, offset: 91017},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 90956},
+											pos: position{line: 2883, col: 13, offset: 91018},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 90956},
+													pos:        position{line: 2883, col: 13, offset: 91018},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 90963},
+													pos:        position{line: 2883, col: 20, offset: 91025},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 90972},
+													pos:        position{line: 2883, col: 29, offset: 91034},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42672,36 +42852,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91132},
+										pos: position{line: 2893, col: 8, offset: 91194},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91133,
+											line: 2893, col: 9, offset: 91195,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75216},
+							pos:   position{line: 2328, col: 5, offset: 75278},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2328, col: 9, offset: 75234},
+								pos: position{line: 2329, col: 9, offset: 75296},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88026},
+										pos: position{line: 2773, col: 5, offset: 88088},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88026},
+											pos: position{line: 2773, col: 5, offset: 88088},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88026},
+													pos:   position{line: 2773, col: 5, offset: 88088},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88032},
+														pos: position{line: 2773, col: 11, offset: 88094},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88032},
+															pos: position{line: 2773, col: 11, offset: 88094},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88032},
+																pos:        position{line: 2773, col: 11, offset: 88094},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42711,36 +42891,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88090},
+													pos: position{line: 2776, col: 5, offset: 88152},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88101},
+														pos: position{line: 2777, col: 9, offset: 88163},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88101},
+																pos:        position{line: 2777, col: 9, offset: 88163},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88150},
+																pos: position{line: 2778, col: 9, offset: 88212},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88230},
+													pos: position{line: 2782, col: 5, offset: 88292},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88241},
+														pos: position{line: 2783, col: 9, offset: 88303},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88241},
+																pos:        position{line: 2783, col: 9, offset: 88303},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 13, offset: 88245},
+																pos:        position{line: 2783, col: 13, offset: 88307},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42753,12 +42933,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 90845},
+										pos: position{line: 2878, col: 11, offset: 90907},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 90845},
+											pos: position{line: 2878, col: 11, offset: 90907},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 90845},
+												pos:        position{line: 2878, col: 11, offset: 90907},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42767,25 +42947,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80415},
+										pos: position{line: 2499, col: 5, offset: 80477},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80415},
+											pos: position{line: 2499, col: 5, offset: 80477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80415},
+													pos: position{line: 2499, col: 5, offset: 80477},
 													run: (*parser).callonSectionTitleElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80486},
+													pos:        position{line: 2502, col: 5, offset: 80548},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80491},
+													pos: position{line: 2502, col: 10, offset: 80553},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80492},
+														pos:        position{line: 2502, col: 11, offset: 80554},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42796,29 +42976,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80684},
+										pos: position{line: 2508, col: 5, offset: 80746},
 										run: (*parser).callonSectionTitleElement37,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80684},
+											pos: position{line: 2508, col: 5, offset: 80746},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80684},
+													pos: position{line: 2508, col: 5, offset: 80746},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80755},
+													pos: position{line: 2511, col: 5, offset: 80817},
 													run: (*parser).callonSectionTitleElement40,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 80880},
+													pos:        position{line: 2515, col: 5, offset: 80942},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 80884},
+													pos: position{line: 2515, col: 9, offset: 80946},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 80885},
+														pos:        position{line: 2515, col: 10, offset: 80947},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42829,31 +43009,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75299},
+										pos:  position{line: 2332, col: 11, offset: 75361},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88438},
+										pos: position{line: 2791, col: 5, offset: 88500},
 										run: (*parser).callonSectionTitleElement45,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88448},
+											pos: position{line: 2792, col: 9, offset: 88510},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88449},
+													pos:        position{line: 2792, col: 10, offset: 88511},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88546},
+													pos: position{line: 2794, col: 13, offset: 88608},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88546},
+															pos: position{line: 2794, col: 13, offset: 88608},
 															run: (*parser).callonSectionTitleElement49,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88646},
+															pos:        position{line: 2797, col: 13, offset: 88708},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42861,20 +43041,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88652},
+													pos:        position{line: 2797, col: 19, offset: 88714},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88690},
+													pos: position{line: 2800, col: 13, offset: 88752},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88690},
+															pos: position{line: 2800, col: 13, offset: 88752},
 															run: (*parser).callonSectionTitleElement53,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88783},
+															pos:        position{line: 2803, col: 14, offset: 88845},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42883,18 +43063,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88827},
+													pos: position{line: 2805, col: 12, offset: 88889},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88827},
+															pos:        position{line: 2805, col: 12, offset: 88889},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88831},
+															pos: position{line: 2805, col: 16, offset: 88893},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88832},
+																pos:        position{line: 2805, col: 17, offset: 88894},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -42906,35 +43086,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75372},
+										pos:  position{line: 2334, col: 11, offset: 75434},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75388},
+										pos:  position{line: 2335, col: 11, offset: 75450},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75416},
+										pos:  position{line: 2336, col: 11, offset: 75478},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79244},
+										pos: position{line: 2468, col: 5, offset: 79306},
 										run: (*parser).callonSectionTitleElement62,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79244},
+											pos: position{line: 2468, col: 5, offset: 79306},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79244},
+													pos: position{line: 2468, col: 5, offset: 79306},
 													run: (*parser).callonSectionTitleElement64,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79320},
+													pos:   position{line: 2471, col: 5, offset: 79382},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79338},
+														pos: position{line: 2472, col: 9, offset: 79400},
 														run: (*parser).callonSectionTitleElement66,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79339},
+															pos:        position{line: 2472, col: 10, offset: 79401},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -42946,7 +43126,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75501},
+										pos:  position{line: 2338, col: 11, offset: 75563},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43335,17 +43515,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2350, col: 5, offset: 75954},
+										pos: position{line: 2351, col: 5, offset: 76016},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2350, col: 5, offset: 75954},
+											pos: position{line: 2351, col: 5, offset: 76016},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2350, col: 5, offset: 75954},
+													pos: position{line: 2351, col: 5, offset: 76016},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2353, col: 5, offset: 76009},
+													pos:   position{line: 2354, col: 5, offset: 76071},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43799,12 +43979,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2353, col: 26, offset: 76030},
+													pos: position{line: 2354, col: 26, offset: 76092},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90784},
+														pos: position{line: 2874, col: 10, offset: 90846},
 														run: (*parser).callonSectionTitleElement242,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90784},
+															pos:        position{line: 2874, col: 10, offset: 90846},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43813,30 +43993,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2353, col: 33, offset: 76037},
+													pos: position{line: 2354, col: 33, offset: 76099},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91182},
+														pos: position{line: 2896, col: 8, offset: 91244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 90955},
+																pos: position{line: 2883, col: 12, offset: 91017},
 																run: (*parser).callonSectionTitleElement246,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 90956},
+																	pos: position{line: 2883, col: 13, offset: 91018},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 90956},
+																			pos:        position{line: 2883, col: 13, offset: 91018},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 90963},
+																			pos:        position{line: 2883, col: 20, offset: 91025},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 90972},
+																			pos:        position{line: 2883, col: 29, offset: 91034},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43845,9 +44025,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91132},
+																pos: position{line: 2893, col: 8, offset: 91194},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91133,
+																	line: 2893, col: 9, offset: 91195,
 																},
 															},
 														},
@@ -43872,12 +44052,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90436},
+														pos: position{line: 2859, col: 7, offset: 90498},
 														run: (*parser).callonSectionTitleElement257,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90436},
+															pos: position{line: 2859, col: 7, offset: 90498},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90436},
+																pos:        position{line: 2859, col: 7, offset: 90498},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43911,12 +44091,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90436},
+														pos: position{line: 2859, col: 7, offset: 90498},
 														run: (*parser).callonSectionTitleElement265,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90436},
+															pos: position{line: 2859, col: 7, offset: 90498},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90436},
+																pos:        position{line: 2859, col: 7, offset: 90498},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43935,14 +44115,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2342, col: 11, offset: 75755},
+										pos:  position{line: 2343, col: 11, offset: 75817},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89092},
+										pos: position{line: 2813, col: 12, offset: 89154},
 										run: (*parser).callonSectionTitleElement270,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89092},
+											pos:        position{line: 2813, col: 12, offset: 89154},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43958,52 +44138,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2363, col: 1, offset: 76299},
+			pos:  position{line: 2364, col: 1, offset: 76361},
 			expr: &actionExpr{
-				pos: position{line: 2364, col: 5, offset: 76386},
+				pos: position{line: 2365, col: 5, offset: 76448},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2364, col: 5, offset: 76386},
+					pos: position{line: 2365, col: 5, offset: 76448},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2364, col: 5, offset: 76386},
+							pos:   position{line: 2365, col: 5, offset: 76448},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2364, col: 14, offset: 76395},
+								pos: position{line: 2365, col: 14, offset: 76457},
 								expr: &actionExpr{
-									pos: position{line: 2366, col: 9, offset: 76421},
+									pos: position{line: 2367, col: 9, offset: 76483},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2366, col: 9, offset: 76421},
+										pos: position{line: 2367, col: 9, offset: 76483},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91118},
+												pos: position{line: 2891, col: 11, offset: 91180},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91120,
+													line: 2891, col: 13, offset: 91182,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2367, col: 9, offset: 76436},
+												pos:   position{line: 2368, col: 9, offset: 76498},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2368, col: 13, offset: 76458},
+													pos: position{line: 2369, col: 13, offset: 76520},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2772, col: 5, offset: 88026},
+															pos: position{line: 2773, col: 5, offset: 88088},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2772, col: 5, offset: 88026},
+																pos: position{line: 2773, col: 5, offset: 88088},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2772, col: 5, offset: 88026},
+																		pos:   position{line: 2773, col: 5, offset: 88088},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2772, col: 11, offset: 88032},
+																			pos: position{line: 2773, col: 11, offset: 88094},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2772, col: 11, offset: 88032},
+																				pos: position{line: 2773, col: 11, offset: 88094},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2772, col: 11, offset: 88032},
+																					pos:        position{line: 2773, col: 11, offset: 88094},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44013,36 +44193,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2775, col: 5, offset: 88090},
+																		pos: position{line: 2776, col: 5, offset: 88152},
 																		expr: &seqExpr{
-																			pos: position{line: 2776, col: 9, offset: 88101},
+																			pos: position{line: 2777, col: 9, offset: 88163},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2776, col: 9, offset: 88101},
+																					pos:        position{line: 2777, col: 9, offset: 88163},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2777, col: 9, offset: 88150},
+																					pos: position{line: 2778, col: 9, offset: 88212},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2781, col: 5, offset: 88230},
+																		pos: position{line: 2782, col: 5, offset: 88292},
 																		expr: &seqExpr{
-																			pos: position{line: 2782, col: 9, offset: 88241},
+																			pos: position{line: 2783, col: 9, offset: 88303},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2782, col: 9, offset: 88241},
+																					pos:        position{line: 2783, col: 9, offset: 88303},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2782, col: 13, offset: 88245},
+																					pos:        position{line: 2783, col: 13, offset: 88307},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44055,12 +44235,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2877, col: 11, offset: 90845},
+															pos: position{line: 2878, col: 11, offset: 90907},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2877, col: 11, offset: 90845},
+																pos: position{line: 2878, col: 11, offset: 90907},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 11, offset: 90845},
+																	pos:        position{line: 2878, col: 11, offset: 90907},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44069,29 +44249,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2370, col: 15, offset: 76504},
+															pos:  position{line: 2371, col: 15, offset: 76566},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2498, col: 5, offset: 80415},
+															pos: position{line: 2499, col: 5, offset: 80477},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2498, col: 5, offset: 80415},
+																pos: position{line: 2499, col: 5, offset: 80477},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2498, col: 5, offset: 80415},
+																		pos: position{line: 2499, col: 5, offset: 80477},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 5, offset: 80486},
+																		pos:        position{line: 2502, col: 5, offset: 80548},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2501, col: 10, offset: 80491},
+																		pos: position{line: 2502, col: 10, offset: 80553},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2501, col: 11, offset: 80492},
+																			pos:        position{line: 2502, col: 11, offset: 80554},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44102,29 +44282,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2507, col: 5, offset: 80684},
+															pos: position{line: 2508, col: 5, offset: 80746},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2507, col: 5, offset: 80684},
+																pos: position{line: 2508, col: 5, offset: 80746},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2507, col: 5, offset: 80684},
+																		pos: position{line: 2508, col: 5, offset: 80746},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80755},
+																		pos: position{line: 2511, col: 5, offset: 80817},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 80880},
+																		pos:        position{line: 2515, col: 5, offset: 80942},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 9, offset: 80884},
+																		pos: position{line: 2515, col: 9, offset: 80946},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 10, offset: 80885},
+																			pos:        position{line: 2515, col: 10, offset: 80947},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44135,27 +44315,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2790, col: 5, offset: 88438},
+															pos: position{line: 2791, col: 5, offset: 88500},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2791, col: 9, offset: 88448},
+																pos: position{line: 2792, col: 9, offset: 88510},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2791, col: 10, offset: 88449},
+																		pos:        position{line: 2792, col: 10, offset: 88511},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2793, col: 13, offset: 88546},
+																		pos: position{line: 2794, col: 13, offset: 88608},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2793, col: 13, offset: 88546},
+																				pos: position{line: 2794, col: 13, offset: 88608},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2796, col: 13, offset: 88646},
+																				pos:        position{line: 2797, col: 13, offset: 88708},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44163,20 +44343,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2796, col: 19, offset: 88652},
+																		pos:        position{line: 2797, col: 19, offset: 88714},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2799, col: 13, offset: 88690},
+																		pos: position{line: 2800, col: 13, offset: 88752},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2799, col: 13, offset: 88690},
+																				pos: position{line: 2800, col: 13, offset: 88752},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88783},
+																				pos:        position{line: 2803, col: 14, offset: 88845},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44185,18 +44365,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2804, col: 12, offset: 88827},
+																		pos: position{line: 2805, col: 12, offset: 88889},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2804, col: 12, offset: 88827},
+																				pos:        position{line: 2805, col: 12, offset: 88889},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2804, col: 16, offset: 88831},
+																				pos: position{line: 2805, col: 16, offset: 88893},
 																				expr: &litMatcher{
-																					pos:        position{line: 2804, col: 17, offset: 88832},
+																					pos:        position{line: 2805, col: 17, offset: 88894},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44208,25 +44388,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 90955},
+															pos: position{line: 2883, col: 12, offset: 91017},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 90956},
+																pos: position{line: 2883, col: 13, offset: 91018},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 90956},
+																		pos:        position{line: 2883, col: 13, offset: 91018},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 90963},
+																		pos:        position{line: 2883, col: 20, offset: 91025},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 90972},
+																		pos:        position{line: 2883, col: 29, offset: 91034},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44581,35 +44761,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2375, col: 15, offset: 76671},
+															pos:  position{line: 2376, col: 15, offset: 76733},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2376, col: 15, offset: 76691},
+															pos:  position{line: 2377, col: 15, offset: 76753},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2377, col: 15, offset: 76780},
+															pos:  position{line: 2378, col: 15, offset: 76842},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2467, col: 5, offset: 79244},
+															pos: position{line: 2468, col: 5, offset: 79306},
 															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
-																pos: position{line: 2467, col: 5, offset: 79244},
+																pos: position{line: 2468, col: 5, offset: 79306},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2467, col: 5, offset: 79244},
+																		pos: position{line: 2468, col: 5, offset: 79306},
 																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2470, col: 5, offset: 79320},
+																		pos:   position{line: 2471, col: 5, offset: 79382},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2471, col: 9, offset: 79338},
+																			pos: position{line: 2472, col: 9, offset: 79400},
 																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2471, col: 10, offset: 79339},
+																				pos:        position{line: 2472, col: 10, offset: 79401},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44643,10 +44823,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37589},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44657,28 +44837,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37596},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91182},
+																			pos: position{line: 2896, col: 8, offset: 91244},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44687,9 +44867,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91132},
+																					pos: position{line: 2893, col: 8, offset: 91194},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91133,
+																						line: 2893, col: 9, offset: 91195,
 																					},
 																				},
 																			},
@@ -44699,7 +44879,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76962},
+															pos:  position{line: 2381, col: 15, offset: 77024},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -44742,10 +44922,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2812, col: 12, offset: 89092},
+															pos: position{line: 2813, col: 12, offset: 89154},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 12, offset: 89092},
+																pos:        position{line: 2813, col: 12, offset: 89154},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44761,9 +44941,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -44772,28 +44952,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2391, col: 1, offset: 77400},
+			pos:  position{line: 2392, col: 1, offset: 77462},
 			expr: &actionExpr{
-				pos: position{line: 2392, col: 5, offset: 77433},
+				pos: position{line: 2393, col: 5, offset: 77495},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2392, col: 5, offset: 77433},
+					pos: position{line: 2393, col: 5, offset: 77495},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2392, col: 5, offset: 77433},
+							pos:   position{line: 2393, col: 5, offset: 77495},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2392, col: 14, offset: 77442},
+								pos: position{line: 2393, col: 14, offset: 77504},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2392, col: 15, offset: 77443},
+									pos:  position{line: 2393, col: 15, offset: 77505},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -44802,41 +44982,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2396, col: 1, offset: 77540},
+			pos:  position{line: 2397, col: 1, offset: 77602},
 			expr: &actionExpr{
-				pos: position{line: 2397, col: 5, offset: 77580},
+				pos: position{line: 2398, col: 5, offset: 77642},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2397, col: 5, offset: 77580},
+					pos: position{line: 2398, col: 5, offset: 77642},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91118},
+							pos: position{line: 2891, col: 11, offset: 91180},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91120,
+								line: 2891, col: 13, offset: 91182,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2398, col: 5, offset: 77591},
+							pos:   position{line: 2399, col: 5, offset: 77653},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2399, col: 9, offset: 77609},
+								pos: position{line: 2400, col: 9, offset: 77671},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88026},
+										pos: position{line: 2773, col: 5, offset: 88088},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88026},
+											pos: position{line: 2773, col: 5, offset: 88088},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88026},
+													pos:   position{line: 2773, col: 5, offset: 88088},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88032},
+														pos: position{line: 2773, col: 11, offset: 88094},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88032},
+															pos: position{line: 2773, col: 11, offset: 88094},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88032},
+																pos:        position{line: 2773, col: 11, offset: 88094},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44846,36 +45026,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88090},
+													pos: position{line: 2776, col: 5, offset: 88152},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88101},
+														pos: position{line: 2777, col: 9, offset: 88163},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88101},
+																pos:        position{line: 2777, col: 9, offset: 88163},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88150},
+																pos: position{line: 2778, col: 9, offset: 88212},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88230},
+													pos: position{line: 2782, col: 5, offset: 88292},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88241},
+														pos: position{line: 2783, col: 9, offset: 88303},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88241},
+																pos:        position{line: 2783, col: 9, offset: 88303},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 13, offset: 88245},
+																pos:        position{line: 2783, col: 13, offset: 88307},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44888,10 +45068,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90784},
+										pos: position{line: 2874, col: 10, offset: 90846},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90784},
+											pos:        position{line: 2874, col: 10, offset: 90846},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -44899,31 +45079,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2401, col: 11, offset: 77647},
+										pos:  position{line: 2402, col: 11, offset: 77709},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88438},
+										pos: position{line: 2791, col: 5, offset: 88500},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88448},
+											pos: position{line: 2792, col: 9, offset: 88510},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88449},
+													pos:        position{line: 2792, col: 10, offset: 88511},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88546},
+													pos: position{line: 2794, col: 13, offset: 88608},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88546},
+															pos: position{line: 2794, col: 13, offset: 88608},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88646},
+															pos:        position{line: 2797, col: 13, offset: 88708},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44931,20 +45111,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88652},
+													pos:        position{line: 2797, col: 19, offset: 88714},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88690},
+													pos: position{line: 2800, col: 13, offset: 88752},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88690},
+															pos: position{line: 2800, col: 13, offset: 88752},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88783},
+															pos:        position{line: 2803, col: 14, offset: 88845},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44953,18 +45133,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88827},
+													pos: position{line: 2805, col: 12, offset: 88889},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88827},
+															pos:        position{line: 2805, col: 12, offset: 88889},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88831},
+															pos: position{line: 2805, col: 16, offset: 88893},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88832},
+																pos:        position{line: 2805, col: 17, offset: 88894},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44976,31 +45156,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 11, offset: 77720},
+										pos:  position{line: 2404, col: 11, offset: 77782},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77736},
+										pos:  position{line: 2405, col: 11, offset: 77798},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79244},
+										pos: position{line: 2468, col: 5, offset: 79306},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79244},
+											pos: position{line: 2468, col: 5, offset: 79306},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79244},
+													pos: position{line: 2468, col: 5, offset: 79306},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79320},
+													pos:   position{line: 2471, col: 5, offset: 79382},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79338},
+														pos: position{line: 2472, col: 9, offset: 79400},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79339},
+															pos:        position{line: 2472, col: 10, offset: 79401},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45051,25 +45231,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 90955},
+										pos: position{line: 2883, col: 12, offset: 91017},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 90956},
+											pos: position{line: 2883, col: 13, offset: 91018},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 90956},
+													pos:        position{line: 2883, col: 13, offset: 91018},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 90963},
+													pos:        position{line: 2883, col: 20, offset: 91025},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 90972},
+													pos:        position{line: 2883, col: 29, offset: 91034},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45078,10 +45258,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89092},
+										pos: position{line: 2813, col: 12, offset: 89154},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89092},
+											pos:        position{line: 2813, col: 12, offset: 89154},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45097,49 +45277,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2415, col: 1, offset: 78006},
+			pos:  position{line: 2416, col: 1, offset: 78068},
 			expr: &actionExpr{
-				pos: position{line: 2417, col: 5, offset: 78088},
+				pos: position{line: 2418, col: 5, offset: 78150},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2417, col: 5, offset: 78088},
+					pos: position{line: 2418, col: 5, offset: 78150},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2417, col: 5, offset: 78088},
+							pos: position{line: 2418, col: 5, offset: 78150},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2420, col: 5, offset: 78153},
+							pos:   position{line: 2421, col: 5, offset: 78215},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2421, col: 9, offset: 78171},
+								pos: position{line: 2422, col: 9, offset: 78233},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 9, offset: 78171},
+										pos:  position{line: 2422, col: 9, offset: 78233},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78192},
+										pos:  position{line: 2423, col: 11, offset: 78254},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78215},
+										pos:  position{line: 2424, col: 11, offset: 78277},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78231},
+										pos:  position{line: 2425, col: 11, offset: 78293},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78260},
+										pos:  position{line: 2426, col: 11, offset: 78322},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78286},
+										pos:  position{line: 2427, col: 11, offset: 78348},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78312},
+										pos:  position{line: 2428, col: 11, offset: 78374},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45158,12 +45338,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90436},
+														pos: position{line: 2859, col: 7, offset: 90498},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90436},
+															pos: position{line: 2859, col: 7, offset: 90498},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90436},
+																pos:        position{line: 2859, col: 7, offset: 90498},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45197,12 +45377,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90436},
+														pos: position{line: 2859, col: 7, offset: 90498},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90436},
+															pos: position{line: 2859, col: 7, offset: 90498},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90436},
+																pos:        position{line: 2859, col: 7, offset: 90498},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45244,17 +45424,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40695},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2763, col: 13, offset: 87879},
+																		pos:        position{line: 2764, col: 13, offset: 87941},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90784},
+																		pos: position{line: 2874, col: 10, offset: 90846},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90784},
+																			pos:        position{line: 2874, col: 10, offset: 90846},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45280,10 +45460,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40409},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45300,10 +45480,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40420},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45323,17 +45503,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 87879},
+																							pos:        position{line: 2764, col: 13, offset: 87941},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
+																							pos: position{line: 2874, col: 10, offset: 90846},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45364,10 +45544,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40501},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45384,10 +45564,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40512},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90784},
+																			pos: position{line: 2874, col: 10, offset: 90846},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90784},
+																				pos:        position{line: 2874, col: 10, offset: 90846},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45407,17 +45587,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 87879},
+																							pos:        position{line: 2764, col: 13, offset: 87941},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90784},
+																							pos: position{line: 2874, col: 10, offset: 90846},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90784},
+																								pos:        position{line: 2874, col: 10, offset: 90846},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45444,15 +45624,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78391},
+										pos:  position{line: 2431, col: 11, offset: 78453},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78411},
+										pos:  position{line: 2432, col: 11, offset: 78473},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78434},
+										pos:  position{line: 2433, col: 11, offset: 78496},
 										name: "InlineMenu",
 									},
 								},
@@ -45464,22 +45644,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2436, col: 1, offset: 78491},
+			pos:  position{line: 2437, col: 1, offset: 78553},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78579},
+				pos: position{line: 2439, col: 5, offset: 78641},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78579},
+					pos: position{line: 2439, col: 5, offset: 78641},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78579},
+							pos: position{line: 2439, col: 5, offset: 78641},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78656},
+							pos:   position{line: 2442, col: 5, offset: 78718},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2442, col: 9, offset: 78674},
+								pos: position{line: 2443, col: 9, offset: 78736},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 43964},
@@ -45534,10 +45714,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44410},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90784},
+																					pos: position{line: 2874, col: 10, offset: 90846},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90784},
+																						pos:        position{line: 2874, col: 10, offset: 90846},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45548,25 +45728,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44417},
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 90955},
+																					pos: position{line: 2883, col: 12, offset: 91017},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 90956},
+																						pos: position{line: 2883, col: 13, offset: 91018},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 90956},
+																								pos:        position{line: 2883, col: 13, offset: 91018},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 90963},
+																								pos:        position{line: 2883, col: 20, offset: 91025},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 90972},
+																								pos:        position{line: 2883, col: 29, offset: 91034},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45603,7 +45783,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44059},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 87879},
+														pos:        position{line: 2764, col: 13, offset: 87941},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45649,10 +45829,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43519},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45663,25 +45843,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43526},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45704,12 +45884,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43541},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 90845},
+																									pos: position{line: 2878, col: 11, offset: 90907},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 90845},
+																										pos: position{line: 2878, col: 11, offset: 90907},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 90845},
+																											pos:        position{line: 2878, col: 11, offset: 90907},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45738,25 +45918,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43606},
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 90955},
+																							pos: position{line: 2883, col: 12, offset: 91017},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 90956},
+																								pos: position{line: 2883, col: 13, offset: 91018},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 90956},
+																										pos:        position{line: 2883, col: 13, offset: 91018},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 90963},
+																										pos:        position{line: 2883, col: 20, offset: 91025},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 90972},
+																										pos:        position{line: 2883, col: 29, offset: 91034},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45783,10 +45963,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43766},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90784},
+																				pos: position{line: 2874, col: 10, offset: 90846},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90784},
+																					pos:        position{line: 2874, col: 10, offset: 90846},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45797,25 +45977,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43773},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 90955},
+																				pos: position{line: 2883, col: 12, offset: 91017},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 90956},
+																					pos: position{line: 2883, col: 13, offset: 91018},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 90956},
+																							pos:        position{line: 2883, col: 13, offset: 91018},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 90963},
+																							pos:        position{line: 2883, col: 20, offset: 91025},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 90972},
+																							pos:        position{line: 2883, col: 29, offset: 91034},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45851,7 +46031,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43342},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 87879},
+														pos:        position{line: 2764, col: 13, offset: 87941},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45862,7 +46042,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 57, offset: 78722},
+										pos:  position{line: 2443, col: 57, offset: 78784},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45874,16 +46054,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2447, col: 1, offset: 78782},
+			pos:  position{line: 2448, col: 1, offset: 78844},
 			expr: &seqExpr{
-				pos: position{line: 2449, col: 5, offset: 78858},
+				pos: position{line: 2450, col: 5, offset: 78920},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2449, col: 5, offset: 78858},
+						pos: position{line: 2450, col: 5, offset: 78920},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2452, col: 5, offset: 78923},
+						pos:  position{line: 2453, col: 5, offset: 78985},
 						name: "QuotedText",
 					},
 				},
@@ -45891,22 +46071,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2454, col: 1, offset: 78936},
+			pos:  position{line: 2455, col: 1, offset: 78998},
 			expr: &actionExpr{
-				pos: position{line: 2456, col: 5, offset: 79018},
+				pos: position{line: 2457, col: 5, offset: 79080},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2456, col: 5, offset: 79018},
+					pos: position{line: 2457, col: 5, offset: 79080},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2456, col: 5, offset: 79018},
+							pos: position{line: 2457, col: 5, offset: 79080},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2459, col: 5, offset: 79089},
+							pos:   position{line: 2460, col: 5, offset: 79151},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2460, col: 9, offset: 79107},
+								pos:  position{line: 2461, col: 9, offset: 79169},
 								name: "Symbol",
 							},
 						},
@@ -45916,103 +46096,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2518, col: 1, offset: 80937},
+			pos:  position{line: 2519, col: 1, offset: 80999},
 			expr: &choiceExpr{
-				pos: position{line: 2520, col: 5, offset: 80967},
+				pos: position{line: 2521, col: 5, offset: 81029},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 80967},
+						pos: position{line: 2521, col: 5, offset: 81029},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 80967},
+							pos: position{line: 2521, col: 5, offset: 81029},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2520, col: 5, offset: 80967},
+									pos:        position{line: 2521, col: 5, offset: 81029},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2520, col: 10, offset: 80972},
+									pos: position{line: 2521, col: 10, offset: 81034},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2520, col: 10, offset: 80972},
+											pos:  position{line: 2521, col: 10, offset: 81034},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 14, offset: 82076},
+											pos: position{line: 2550, col: 14, offset: 82138},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 14, offset: 82076},
+												pos:        position{line: 2550, col: 14, offset: 82138},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82142},
+											pos: position{line: 2554, col: 14, offset: 82204},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82142},
+												pos:        position{line: 2554, col: 14, offset: 82204},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 15, offset: 82211},
+											pos: position{line: 2558, col: 15, offset: 82273},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 15, offset: 82211},
+												pos:        position{line: 2558, col: 15, offset: 82273},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 13, offset: 82276},
+											pos: position{line: 2562, col: 13, offset: 82338},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 13, offset: 82276},
+												pos:        position{line: 2562, col: 13, offset: 82338},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 21, offset: 82846},
+											pos: position{line: 2590, col: 21, offset: 82908},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 21, offset: 82846},
+												pos:        position{line: 2590, col: 21, offset: 82908},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 5, offset: 82432},
+											pos: position{line: 2569, col: 5, offset: 82494},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2568, col: 5, offset: 82432},
+												pos: position{line: 2569, col: 5, offset: 82494},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2568, col: 5, offset: 82432},
+														pos:        position{line: 2569, col: 5, offset: 82494},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2569, col: 5, offset: 82442},
+														pos: position{line: 2570, col: 5, offset: 82504},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2573, col: 6, offset: 82529},
+														pos: position{line: 2574, col: 6, offset: 82591},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90784},
+																pos: position{line: 2874, col: 10, offset: 90846},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90784},
+																	pos:        position{line: 2874, col: 10, offset: 90846},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46020,30 +46200,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2573, col: 14, offset: 82537},
+																pos: position{line: 2574, col: 14, offset: 82599},
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91182},
+																	pos: position{line: 2896, col: 8, offset: 91244},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 90955},
+																			pos: position{line: 2883, col: 12, offset: 91017},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 90956},
+																				pos: position{line: 2883, col: 13, offset: 91018},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 90956},
+																						pos:        position{line: 2883, col: 13, offset: 91018},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 90963},
+																						pos:        position{line: 2883, col: 20, offset: 91025},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 90972},
+																						pos:        position{line: 2883, col: 29, offset: 91034},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46052,9 +46232,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91132},
+																			pos: position{line: 2893, col: 8, offset: 91194},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91133,
+																				line: 2893, col: 9, offset: 91195,
 																			},
 																		},
 																	},
@@ -46066,53 +46246,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 5, offset: 82657},
+											pos: position{line: 2579, col: 5, offset: 82719},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2578, col: 5, offset: 82657},
+												pos: position{line: 2579, col: 5, offset: 82719},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2578, col: 5, offset: 82657},
+														pos:        position{line: 2579, col: 5, offset: 82719},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2579, col: 5, offset: 82667},
+														pos: position{line: 2580, col: 5, offset: 82729},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2583, col: 5, offset: 82756},
+														pos: position{line: 2584, col: 5, offset: 82818},
 														expr: &choiceExpr{
-															pos: position{line: 2583, col: 7, offset: 82758},
+															pos: position{line: 2584, col: 7, offset: 82820},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2763, col: 13, offset: 87879},
+																	pos:        position{line: 2764, col: 13, offset: 87941},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 90955},
+																	pos: position{line: 2883, col: 12, offset: 91017},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 90956},
+																		pos: position{line: 2883, col: 13, offset: 91018},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 90956},
+																				pos:        position{line: 2883, col: 13, offset: 91018},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 90963},
+																				pos:        position{line: 2883, col: 20, offset: 91025},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 90972},
+																				pos:        position{line: 2883, col: 29, offset: 91034},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46121,9 +46301,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -46133,30 +46313,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2593, col: 20, offset: 82916},
+											pos: position{line: 2594, col: 20, offset: 82978},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2593, col: 20, offset: 82916},
+												pos:        position{line: 2594, col: 20, offset: 82978},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 21, offset: 82987},
+											pos: position{line: 2598, col: 21, offset: 83049},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2597, col: 21, offset: 82987},
+												pos:        position{line: 2598, col: 21, offset: 83049},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2601, col: 20, offset: 83057},
+											pos: position{line: 2602, col: 20, offset: 83119},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2601, col: 20, offset: 83057},
+												pos:        position{line: 2602, col: 20, offset: 83119},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46168,73 +46348,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2524, col: 7, offset: 81227},
+						pos:  position{line: 2525, col: 7, offset: 81289},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 14, offset: 82076},
+						pos: position{line: 2550, col: 14, offset: 82138},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 14, offset: 82076},
+							pos:        position{line: 2550, col: 14, offset: 82138},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82142},
+						pos: position{line: 2554, col: 14, offset: 82204},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82142},
+							pos:        position{line: 2554, col: 14, offset: 82204},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 15, offset: 82211},
+						pos: position{line: 2558, col: 15, offset: 82273},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 15, offset: 82211},
+							pos:        position{line: 2558, col: 15, offset: 82273},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 13, offset: 82276},
+						pos: position{line: 2562, col: 13, offset: 82338},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 13, offset: 82276},
+							pos:        position{line: 2562, col: 13, offset: 82338},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 5, offset: 82432},
+						pos: position{line: 2569, col: 5, offset: 82494},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 5, offset: 82432},
+							pos: position{line: 2569, col: 5, offset: 82494},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82432},
+									pos:        position{line: 2569, col: 5, offset: 82494},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2569, col: 5, offset: 82442},
+									pos: position{line: 2570, col: 5, offset: 82504},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2573, col: 6, offset: 82529},
+									pos: position{line: 2574, col: 6, offset: 82591},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90784},
+											pos: position{line: 2874, col: 10, offset: 90846},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90784},
+												pos:        position{line: 2874, col: 10, offset: 90846},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46242,30 +46422,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2573, col: 14, offset: 82537},
+											pos: position{line: 2574, col: 14, offset: 82599},
 											expr: &choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91182},
+												pos: position{line: 2896, col: 8, offset: 91244},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 90955},
+														pos: position{line: 2883, col: 12, offset: 91017},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 90956},
+															pos: position{line: 2883, col: 13, offset: 91018},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 90956},
+																	pos:        position{line: 2883, col: 13, offset: 91018},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 90963},
+																	pos:        position{line: 2883, col: 20, offset: 91025},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 90972},
+																	pos:        position{line: 2883, col: 29, offset: 91034},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46274,9 +46454,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91132},
+														pos: position{line: 2893, col: 8, offset: 91194},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91133,
+															line: 2893, col: 9, offset: 91195,
 														},
 													},
 												},
@@ -46288,53 +46468,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82657},
+						pos: position{line: 2579, col: 5, offset: 82719},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82657},
+							pos: position{line: 2579, col: 5, offset: 82719},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82657},
+									pos:        position{line: 2579, col: 5, offset: 82719},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2579, col: 5, offset: 82667},
+									pos: position{line: 2580, col: 5, offset: 82729},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2583, col: 5, offset: 82756},
+									pos: position{line: 2584, col: 5, offset: 82818},
 									expr: &choiceExpr{
-										pos: position{line: 2583, col: 7, offset: 82758},
+										pos: position{line: 2584, col: 7, offset: 82820},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 87879},
+												pos:        position{line: 2764, col: 13, offset: 87941},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 90955},
+												pos: position{line: 2883, col: 12, offset: 91017},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 90956},
+													pos: position{line: 2883, col: 13, offset: 91018},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 90956},
+															pos:        position{line: 2883, col: 13, offset: 91018},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 90963},
+															pos:        position{line: 2883, col: 20, offset: 91025},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 90972},
+															pos:        position{line: 2883, col: 29, offset: 91034},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46343,9 +46523,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91132},
+												pos: position{line: 2893, col: 8, offset: 91194},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91133,
+													line: 2893, col: 9, offset: 91195,
 												},
 											},
 										},
@@ -46355,40 +46535,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 21, offset: 82846},
+						pos: position{line: 2590, col: 21, offset: 82908},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 21, offset: 82846},
+							pos:        position{line: 2590, col: 21, offset: 82908},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 20, offset: 82916},
+						pos: position{line: 2594, col: 20, offset: 82978},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 20, offset: 82916},
+							pos:        position{line: 2594, col: 20, offset: 82978},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 21, offset: 82987},
+						pos: position{line: 2598, col: 21, offset: 83049},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 21, offset: 82987},
+							pos:        position{line: 2598, col: 21, offset: 83049},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 20, offset: 83057},
+						pos: position{line: 2602, col: 20, offset: 83119},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 20, offset: 83057},
+							pos:        position{line: 2602, col: 20, offset: 83119},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46399,43 +46579,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2535, col: 1, offset: 81417},
+			pos:  position{line: 2536, col: 1, offset: 81479},
 			expr: &choiceExpr{
-				pos: position{line: 2536, col: 5, offset: 81439},
+				pos: position{line: 2537, col: 5, offset: 81501},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2536, col: 5, offset: 81439},
+						pos: position{line: 2537, col: 5, offset: 81501},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 5, offset: 81439},
+							pos: position{line: 2537, col: 5, offset: 81501},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 5, offset: 81439},
+									pos:        position{line: 2537, col: 5, offset: 81501},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 11, offset: 81445},
+									pos: position{line: 2537, col: 11, offset: 81507},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2079, col: 5, offset: 67166},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2079, col: 5, offset: 67166},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2080, col: 5, offset: 67175},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2084, col: 5, offset: 67298},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2084, col: 7, offset: 67300},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2084, col: 8, offset: 67301},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46449,21 +46629,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 7, offset: 81598},
+						pos: position{line: 2540, col: 7, offset: 81660},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 7, offset: 81598},
+							pos: position{line: 2540, col: 7, offset: 81660},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 7, offset: 81598},
+									pos:        position{line: 2540, col: 7, offset: 81660},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 13, offset: 81604},
+									pos: position{line: 2540, col: 13, offset: 81666},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2539, col: 14, offset: 81605},
+										pos:  position{line: 2540, col: 14, offset: 81667},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46471,38 +46651,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81755},
+						pos: position{line: 2543, col: 7, offset: 81817},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81755},
+							pos: position{line: 2543, col: 7, offset: 81817},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81755},
+									pos:        position{line: 2543, col: 7, offset: 81817},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 12, offset: 81760},
+									pos: position{line: 2543, col: 12, offset: 81822},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2079, col: 5, offset: 67166},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2079, col: 5, offset: 67166},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2080, col: 5, offset: 67175},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2084, col: 5, offset: 67298},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2084, col: 7, offset: 67300},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2084, col: 8, offset: 67301},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46516,21 +46696,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 81913},
+						pos: position{line: 2546, col: 7, offset: 81975},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 81913},
+							pos: position{line: 2546, col: 7, offset: 81975},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 81913},
+									pos:        position{line: 2546, col: 7, offset: 81975},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 81918},
+									pos: position{line: 2546, col: 12, offset: 81980},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2545, col: 13, offset: 81919},
+										pos:  position{line: 2546, col: 13, offset: 81981},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46542,63 +46722,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2678, col: 1, offset: 84959},
+			pos:  position{line: 2679, col: 1, offset: 85021},
 			expr: &actionExpr{
-				pos: position{line: 2678, col: 26, offset: 84984},
+				pos: position{line: 2679, col: 26, offset: 85046},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2678, col: 26, offset: 84984},
+					pos: position{line: 2679, col: 26, offset: 85046},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2678, col: 26, offset: 84984},
+							pos:   position{line: 2679, col: 26, offset: 85046},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2678, col: 31, offset: 84989},
+								pos: position{line: 2679, col: 31, offset: 85051},
 								expr: &actionExpr{
-									pos: position{line: 2683, col: 5, offset: 85052},
+									pos: position{line: 2684, col: 5, offset: 85114},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2683, col: 5, offset: 85052},
+										pos: position{line: 2684, col: 5, offset: 85114},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91118},
+												pos: position{line: 2891, col: 11, offset: 91180},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91120,
+													line: 2891, col: 13, offset: 91182,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85178},
+												pos:   position{line: 2687, col: 5, offset: 85240},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 16, offset: 85189},
+													pos: position{line: 2687, col: 16, offset: 85251},
 													expr: &actionExpr{
-														pos: position{line: 2686, col: 17, offset: 85190},
+														pos: position{line: 2687, col: 17, offset: 85252},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2686, col: 17, offset: 85190},
+															pos: position{line: 2687, col: 17, offset: 85252},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2686, col: 17, offset: 85190},
+																	pos:   position{line: 2687, col: 17, offset: 85252},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90611},
+																		pos: position{line: 2866, col: 12, offset: 90673},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90612},
+																			pos: position{line: 2866, col: 13, offset: 90674},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90612},
+																					pos: position{line: 2866, col: 13, offset: 90674},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90612},
+																						pos:        position{line: 2866, col: 13, offset: 90674},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90617},
+																					pos: position{line: 2866, col: 18, offset: 90679},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90617},
+																						pos:        position{line: 2866, col: 18, offset: 90679},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46610,7 +46790,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2686, col: 27, offset: 85200},
+																	pos:        position{line: 2687, col: 27, offset: 85262},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46621,38 +46801,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85228},
+												pos:   position{line: 2688, col: 5, offset: 85290},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 12, offset: 85235},
+													pos: position{line: 2688, col: 12, offset: 85297},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 9, offset: 85245},
+														pos: position{line: 2689, col: 9, offset: 85307},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2688, col: 9, offset: 85245},
+																pos: position{line: 2689, col: 9, offset: 85307},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 9, offset: 85245},
+																	pos:        position{line: 2689, col: 9, offset: 85307},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85292},
+																pos: position{line: 2690, col: 11, offset: 85354},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85292},
+																	pos:        position{line: 2690, col: 11, offset: 85354},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 11, offset: 85340},
+																pos: position{line: 2691, col: 11, offset: 85402},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 11, offset: 85340},
+																	pos:        position{line: 2691, col: 11, offset: 85402},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46663,38 +46843,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85390},
+												pos:   position{line: 2693, col: 5, offset: 85452},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 12, offset: 85397},
+													pos: position{line: 2693, col: 12, offset: 85459},
 													expr: &choiceExpr{
-														pos: position{line: 2693, col: 9, offset: 85407},
+														pos: position{line: 2694, col: 9, offset: 85469},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2693, col: 9, offset: 85407},
+																pos: position{line: 2694, col: 9, offset: 85469},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 9, offset: 85407},
+																	pos:        position{line: 2694, col: 9, offset: 85469},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85454},
+																pos: position{line: 2695, col: 11, offset: 85516},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85454},
+																	pos:        position{line: 2695, col: 11, offset: 85516},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2695, col: 11, offset: 85504},
+																pos: position{line: 2696, col: 11, offset: 85566},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 11, offset: 85504},
+																	pos:        position{line: 2696, col: 11, offset: 85566},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46705,32 +46885,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85555},
+												pos:   position{line: 2698, col: 5, offset: 85617},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 12, offset: 85562},
+													pos: position{line: 2698, col: 12, offset: 85624},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 13, offset: 85563},
+														pos: position{line: 2698, col: 13, offset: 85625},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90611},
+																pos: position{line: 2866, col: 12, offset: 90673},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90612},
+																	pos: position{line: 2866, col: 13, offset: 90674},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90612},
+																			pos: position{line: 2866, col: 13, offset: 90674},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90612},
+																				pos:        position{line: 2866, col: 13, offset: 90674},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90617},
+																			pos: position{line: 2866, col: 18, offset: 90679},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90617},
+																				pos:        position{line: 2866, col: 18, offset: 90679},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46741,10 +46921,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 24, offset: 85574},
+																pos: position{line: 2698, col: 24, offset: 85636},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 24, offset: 85574},
+																	pos:        position{line: 2698, col: 24, offset: 85636},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46755,15 +46935,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2698, col: 5, offset: 85616},
+												pos:   position{line: 2699, col: 5, offset: 85678},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2698, col: 11, offset: 85622},
+													pos: position{line: 2699, col: 11, offset: 85684},
 													expr: &actionExpr{
-														pos: position{line: 2698, col: 12, offset: 85623},
+														pos: position{line: 2699, col: 12, offset: 85685},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2698, col: 12, offset: 85623},
+															pos:        position{line: 2699, col: 12, offset: 85685},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46773,12 +46953,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85753},
+												pos:   position{line: 2701, col: 5, offset: 85815},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 11, offset: 85759},
+													pos: position{line: 2701, col: 11, offset: 85821},
 													expr: &litMatcher{
-														pos:        position{line: 2700, col: 12, offset: 85760},
+														pos:        position{line: 2701, col: 12, offset: 85822},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46786,7 +46966,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2701, col: 5, offset: 85770},
+												pos: position{line: 2702, col: 5, offset: 85832},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46795,9 +46975,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91132},
+							pos: position{line: 2893, col: 8, offset: 91194},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91133,
+								line: 2893, col: 9, offset: 91195,
 							},
 						},
 					},
@@ -46806,23 +46986,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2728, col: 1, offset: 86779},
+			pos:  position{line: 2729, col: 1, offset: 86841},
 			expr: &actionExpr{
-				pos: position{line: 2729, col: 5, offset: 86802},
+				pos: position{line: 2730, col: 5, offset: 86864},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2729, col: 5, offset: 86802},
+					pos: position{line: 2730, col: 5, offset: 86864},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86802},
+							pos:   position{line: 2730, col: 5, offset: 86864},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87543},
+								pos: position{line: 2753, col: 18, offset: 87605},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87544},
+									pos: position{line: 2753, col: 19, offset: 87606},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87544},
+										pos:        position{line: 2753, col: 19, offset: 87606},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46833,25 +47013,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2730, col: 5, offset: 86828},
+							pos: position{line: 2731, col: 5, offset: 86890},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2734, col: 5, offset: 86956},
+							pos:        position{line: 2735, col: 5, offset: 87018},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 86966},
+							pos:   position{line: 2736, col: 5, offset: 87028},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87619},
+								pos: position{line: 2757, col: 19, offset: 87681},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87619},
+									pos: position{line: 2757, col: 19, offset: 87681},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87619},
+										pos:        position{line: 2757, col: 19, offset: 87681},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46861,36 +47041,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 86994},
+							pos:   position{line: 2737, col: 5, offset: 87056},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2736, col: 17, offset: 87006},
+								pos:  position{line: 2737, col: 17, offset: 87068},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91182},
+							pos: position{line: 2896, col: 8, offset: 91244},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 90955},
+									pos: position{line: 2883, col: 12, offset: 91017},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 90956},
+										pos: position{line: 2883, col: 13, offset: 91018},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 90956},
+												pos:        position{line: 2883, col: 13, offset: 91018},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 90963},
+												pos:        position{line: 2883, col: 20, offset: 91025},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 90972},
+												pos:        position{line: 2883, col: 29, offset: 91034},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46899,9 +47079,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91132},
+									pos: position{line: 2893, col: 8, offset: 91194},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91133,
+										line: 2893, col: 9, offset: 91195,
 									},
 								},
 							},
@@ -46912,23 +47092,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2740, col: 1, offset: 87154},
+			pos:  position{line: 2741, col: 1, offset: 87216},
 			expr: &actionExpr{
-				pos: position{line: 2741, col: 5, offset: 87178},
+				pos: position{line: 2742, col: 5, offset: 87240},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2741, col: 5, offset: 87178},
+					pos: position{line: 2742, col: 5, offset: 87240},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87178},
+							pos:   position{line: 2742, col: 5, offset: 87240},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87543},
+								pos: position{line: 2753, col: 18, offset: 87605},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87544},
+									pos: position{line: 2753, col: 19, offset: 87606},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87544},
+										pos:        position{line: 2753, col: 19, offset: 87606},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46939,25 +47119,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2742, col: 5, offset: 87204},
+							pos: position{line: 2743, col: 5, offset: 87266},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2746, col: 5, offset: 87332},
+							pos:        position{line: 2747, col: 5, offset: 87394},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2747, col: 5, offset: 87341},
+							pos:   position{line: 2748, col: 5, offset: 87403},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87619},
+								pos: position{line: 2757, col: 19, offset: 87681},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87619},
+									pos: position{line: 2757, col: 19, offset: 87681},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87619},
+										pos:        position{line: 2757, col: 19, offset: 87681},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46967,10 +47147,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87369},
+							pos:   position{line: 2749, col: 5, offset: 87431},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2748, col: 17, offset: 87381},
+								pos:  position{line: 2749, col: 17, offset: 87443},
 								name: "InlineAttributes",
 							},
 						},
@@ -46980,43 +47160,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2827, col: 1, offset: 89431},
+			pos:  position{line: 2828, col: 1, offset: 89493},
 			expr: &actionExpr{
-				pos: position{line: 2827, col: 17, offset: 89447},
+				pos: position{line: 2828, col: 17, offset: 89509},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2827, col: 17, offset: 89447},
+					pos:   position{line: 2828, col: 17, offset: 89509},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2844, col: 5, offset: 89901},
+						pos: position{line: 2845, col: 5, offset: 89963},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2844, col: 5, offset: 89901},
+							pos:   position{line: 2845, col: 5, offset: 89963},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2844, col: 14, offset: 89910},
+								pos: position{line: 2845, col: 14, offset: 89972},
 								expr: &choiceExpr{
-									pos: position{line: 2845, col: 9, offset: 89920},
+									pos: position{line: 2846, col: 9, offset: 89982},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2845, col: 9, offset: 89920},
+											pos: position{line: 2846, col: 9, offset: 89982},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2845, col: 9, offset: 89920},
+												pos: position{line: 2846, col: 9, offset: 89982},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2845, col: 9, offset: 89920},
+														pos: position{line: 2846, col: 9, offset: 89982},
 														expr: &litMatcher{
-															pos:        position{line: 2845, col: 10, offset: 89921},
+															pos:        position{line: 2846, col: 10, offset: 89983},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2846, col: 9, offset: 89949},
+														pos: position{line: 2847, col: 9, offset: 90011},
 														expr: &charClassMatcher{
-															pos:        position{line: 2846, col: 10, offset: 89950},
+															pos:        position{line: 2847, col: 10, offset: 90012},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47027,27 +47207,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2849, col: 11, offset: 90162},
+											pos: position{line: 2850, col: 11, offset: 90224},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 11, offset: 90162},
+													pos:        position{line: 2850, col: 11, offset: 90224},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2849, col: 19, offset: 90170},
+													pos: position{line: 2850, col: 19, offset: 90232},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 21, offset: 90172},
+														pos: position{line: 2850, col: 21, offset: 90234},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2849, col: 21, offset: 90172},
+																pos: position{line: 2850, col: 21, offset: 90234},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90784},
+																	pos: position{line: 2874, col: 10, offset: 90846},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90784},
+																		pos:        position{line: 2874, col: 10, offset: 90846},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47056,11 +47236,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2849, col: 28, offset: 90179},
+																pos: position{line: 2850, col: 28, offset: 90241},
 																expr: &notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91132},
+																	pos: position{line: 2893, col: 8, offset: 91194},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91133,
+																		line: 2893, col: 9, offset: 91195,
 																	},
 																},
 															},
@@ -47455,10 +47635,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 11, offset: 90299},
+											pos: position{line: 2853, col: 11, offset: 90361},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2852, col: 11, offset: 90299},
+												pos:        position{line: 2853, col: 11, offset: 90361},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -66486,7 +66666,31 @@ func (p *parser) callonListContinuationElement1579() (interface{}, error) {
 	return p.cur.onListContinuationElement1579()
 }
 
+func (c *current) onListContinuationElement1587() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1587()
+}
+
+func (c *current) onListContinuationElement1590() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1590()
+}
+
 func (c *current) onListContinuationElement1564(style interface{}) (interface{}, error) {
+	// there must be some content on the line
 	return style, nil
 
 }
@@ -66497,102 +66701,102 @@ func (p *parser) callonListContinuationElement1564() (interface{}, error) {
 	return p.cur.onListContinuationElement1564(stack["style"])
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1606() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1606() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1606()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1609() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1609() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1609()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1601() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1601() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1601()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1620() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1620()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1622() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1622() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1622()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1631() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1631()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1638() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1638()
 }
 
-func (c *current) onListContinuationElement1628(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1641(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (bool, error) {
+func (p *parser) callonListContinuationElement1641() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628(stack["depth"])
+	return p.cur.onListContinuationElement1641(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1622(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1635(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66608,745 +66812,745 @@ func (c *current) onListContinuationElement1622(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622(stack["depth"])
+	return p.cur.onListContinuationElement1635(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1642() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1642() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1642()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1647() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1647()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1651() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1651()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1655() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1655() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1655()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1660() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1652(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1665(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652(stack["prefix"])
+	return p.cur.onListContinuationElement1665(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1615(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1628(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1628() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615(stack["prefix"])
+	return p.cur.onListContinuationElement1628(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1659() (interface{}, error) {
+func (c *current) onListContinuationElement1672() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1672() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659()
+	return p.cur.onListContinuationElement1672()
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1675() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1675()
 }
 
-func (c *current) onListContinuationElement1667(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1680(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1667() (bool, error) {
+func (p *parser) callonListContinuationElement1680() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["style"])
+	return p.cur.onListContinuationElement1680(stack["style"])
 }
 
-func (c *current) onListContinuationElement1668(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1681(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668(stack["style"])
+	return p.cur.onListContinuationElement1681(stack["style"])
 }
 
-func (c *current) onListContinuationElement1656(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1669(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656(stack["style"])
+	return p.cur.onListContinuationElement1669(stack["style"])
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1689() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1689() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1689()
 }
 
-func (c *current) onListContinuationElement1680(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1693(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (interface{}, error) {
+func (p *parser) callonListContinuationElement1693() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680(stack["ref"])
+	return p.cur.onListContinuationElement1693(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1672(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1685(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672(stack["ref"])
+	return p.cur.onListContinuationElement1685(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1705() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1705()
 }
 
-func (c *current) onListContinuationElement1695(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1708(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (bool, error) {
+func (p *parser) callonListContinuationElement1708() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695(stack["separator"])
+	return p.cur.onListContinuationElement1708(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1689(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1702(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["separator"])
+	return p.cur.onListContinuationElement1702(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1711() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1711()
 }
 
-func (c *current) onListContinuationElement1685() (interface{}, error) {
+func (c *current) onListContinuationElement1698() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1722() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1722()
 }
 
-func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1725(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1725() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["separator"])
+	return p.cur.onListContinuationElement1725(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1719(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1719() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["separator"])
+	return p.cur.onListContinuationElement1719(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
+func (c *current) onListContinuationElement1736() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1736() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1736()
 }
 
-func (c *current) onListContinuationElement1729() (interface{}, error) {
+func (c *current) onListContinuationElement1742() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729()
+	return p.cur.onListContinuationElement1742()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1720(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1733(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["delimiter"])
+	return p.cur.onListContinuationElement1733(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1755() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1755() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1755()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1761() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1761()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1764() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1764() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1764()
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1752(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1752() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onListContinuationElement1752(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1775() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1775()
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1782() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1782()
 }
 
-func (c *current) onListContinuationElement1758(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1771(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1771() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758(stack["language"])
+	return p.cur.onListContinuationElement1771(stack["language"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1792() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1792() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1792()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1801() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1801()
 }
 
-func (c *current) onListContinuationElement1776(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1789(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776(stack["delimiter"])
+	return p.cur.onListContinuationElement1789(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1811() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1811()
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1817() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1817()
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1820()
 }
 
-func (c *current) onListContinuationElement1795(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1808(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795(stack["delimiter"])
+	return p.cur.onListContinuationElement1808(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1830() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1830() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1830()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1836() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1836()
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1839() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1839()
 }
 
-func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1827(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814(stack["delimiter"])
+	return p.cur.onListContinuationElement1827(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1849() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1849()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1855() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1855()
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1858() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1858()
 }
 
-func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1846(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833(stack["delimiter"])
+	return p.cur.onListContinuationElement1846(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1868() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1868()
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1874() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1874() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1874()
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1877() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1877()
 }
 
-func (c *current) onListContinuationElement1852(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1865(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852(stack["delimiter"])
+	return p.cur.onListContinuationElement1865(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1887() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1887()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1893() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1893()
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1896() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1896()
 }
 
-func (c *current) onListContinuationElement1871(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1884(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871(stack["delimiter"])
+	return p.cur.onListContinuationElement1884(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1714(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1727(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1727() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["delimiter"])
+	return p.cur.onListContinuationElement1727(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1904() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1904()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1908() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1908()
 }
 
-func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1598(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585(stack["content"])
+	return p.cur.onListContinuationElement1598(stack["content"])
 }
 
 func (c *current) onListContinuationElement1560(style, content interface{}) (interface{}, error) {
@@ -67531,7 +67735,31 @@ func (p *parser) callonShortcutParagraph29() (interface{}, error) {
 	return p.cur.onShortcutParagraph29()
 }
 
+func (c *current) onShortcutParagraph37() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph37() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph37()
+}
+
+func (c *current) onShortcutParagraph40() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph40() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph40()
+}
+
 func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
+	// there must be some content on the line
 	return style, nil
 
 }
@@ -67542,52 +67770,52 @@ func (p *parser) callonShortcutParagraph14() (interface{}, error) {
 	return p.cur.onShortcutParagraph14(stack["style"])
 }
 
-func (c *current) onShortcutParagraph38() (interface{}, error) {
+func (c *current) onShortcutParagraph51() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph38() (interface{}, error) {
+func (p *parser) callonShortcutParagraph51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph38()
+	return p.cur.onShortcutParagraph51()
 }
 
-func (c *current) onShortcutParagraph41(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonShortcutParagraph41() (bool, error) {
+func (p *parser) callonShortcutParagraph54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph41(stack["content"])
+	return p.cur.onShortcutParagraph54(stack["content"])
 }
 
-func (c *current) onShortcutParagraph43() (interface{}, error) {
+func (c *current) onShortcutParagraph56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph43() (interface{}, error) {
+func (p *parser) callonShortcutParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph43()
+	return p.cur.onShortcutParagraph56()
 }
 
-func (c *current) onShortcutParagraph35(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph48(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph35() (interface{}, error) {
+func (p *parser) callonShortcutParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph35(stack["content"])
+	return p.cur.onShortcutParagraph48(stack["content"])
 }
 
-func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, error) {
+func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, error) {
 	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
 	//   in the middle of the line (with space afterwards)
 	//   or at the end of the line
@@ -67596,588 +67824,588 @@ func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, err
 
 }
 
-func (p *parser) callonShortcutParagraph50() (bool, error) {
+func (p *parser) callonShortcutParagraph63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph50(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph63(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onShortcutParagraph63() (interface{}, error) {
+func (c *current) onShortcutParagraph76() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph63() (interface{}, error) {
+func (p *parser) callonShortcutParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63()
+	return p.cur.onShortcutParagraph76()
 }
 
-func (c *current) onShortcutParagraph66() (interface{}, error) {
+func (c *current) onShortcutParagraph79() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
+func (p *parser) callonShortcutParagraph79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph66()
+	return p.cur.onShortcutParagraph79()
 }
 
-func (c *current) onShortcutParagraph58() (interface{}, error) {
+func (c *current) onShortcutParagraph71() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonShortcutParagraph58() (interface{}, error) {
+func (p *parser) callonShortcutParagraph71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph58()
+	return p.cur.onShortcutParagraph71()
 }
 
-func (c *current) onShortcutParagraph85() (interface{}, error) {
+func (c *current) onShortcutParagraph98() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph85() (interface{}, error) {
+func (p *parser) callonShortcutParagraph98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph85()
+	return p.cur.onShortcutParagraph98()
 }
 
-func (c *current) onShortcutParagraph91() (interface{}, error) {
+func (c *current) onShortcutParagraph104() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph91() (interface{}, error) {
+func (p *parser) callonShortcutParagraph104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph91()
+	return p.cur.onShortcutParagraph104()
 }
 
-func (c *current) onShortcutParagraph94() (interface{}, error) {
+func (c *current) onShortcutParagraph107() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph94() (interface{}, error) {
+func (p *parser) callonShortcutParagraph107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph94()
+	return p.cur.onShortcutParagraph107()
 }
 
-func (c *current) onShortcutParagraph82(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph95(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph82() (interface{}, error) {
+func (p *parser) callonShortcutParagraph95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph82(stack["delimiter"])
+	return p.cur.onShortcutParagraph95(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph104() (interface{}, error) {
+func (c *current) onShortcutParagraph117() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph104() (interface{}, error) {
+func (p *parser) callonShortcutParagraph117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph104()
+	return p.cur.onShortcutParagraph117()
 }
 
-func (c *current) onShortcutParagraph110() (interface{}, error) {
+func (c *current) onShortcutParagraph123() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph110() (interface{}, error) {
+func (p *parser) callonShortcutParagraph123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph110()
+	return p.cur.onShortcutParagraph123()
 }
 
-func (c *current) onShortcutParagraph113() (interface{}, error) {
+func (c *current) onShortcutParagraph126() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph113() (interface{}, error) {
+func (p *parser) callonShortcutParagraph126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph113()
+	return p.cur.onShortcutParagraph126()
 }
 
-func (c *current) onShortcutParagraph101(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph114(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph101() (interface{}, error) {
+func (p *parser) callonShortcutParagraph114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph101(stack["delimiter"])
+	return p.cur.onShortcutParagraph114(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph124() (interface{}, error) {
+func (c *current) onShortcutParagraph137() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph124() (interface{}, error) {
+func (p *parser) callonShortcutParagraph137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph124()
+	return p.cur.onShortcutParagraph137()
 }
 
-func (c *current) onShortcutParagraph128() (interface{}, error) {
+func (c *current) onShortcutParagraph141() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph128() (interface{}, error) {
+func (p *parser) callonShortcutParagraph141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph128()
+	return p.cur.onShortcutParagraph141()
 }
 
-func (c *current) onShortcutParagraph131() (interface{}, error) {
+func (c *current) onShortcutParagraph144() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph131() (interface{}, error) {
+func (p *parser) callonShortcutParagraph144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph131()
+	return p.cur.onShortcutParagraph144()
 }
 
-func (c *current) onShortcutParagraph120(language interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph133(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph120() (interface{}, error) {
+func (p *parser) callonShortcutParagraph133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph120(stack["language"])
+	return p.cur.onShortcutParagraph133(stack["language"])
 }
 
-func (c *current) onShortcutParagraph141() (interface{}, error) {
+func (c *current) onShortcutParagraph154() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph141() (interface{}, error) {
+func (p *parser) callonShortcutParagraph154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph141()
+	return p.cur.onShortcutParagraph154()
 }
 
-func (c *current) onShortcutParagraph147() (interface{}, error) {
+func (c *current) onShortcutParagraph160() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph147() (interface{}, error) {
+func (p *parser) callonShortcutParagraph160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph147()
+	return p.cur.onShortcutParagraph160()
 }
 
-func (c *current) onShortcutParagraph150() (interface{}, error) {
+func (c *current) onShortcutParagraph163() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph150() (interface{}, error) {
+func (p *parser) callonShortcutParagraph163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph150()
+	return p.cur.onShortcutParagraph163()
 }
 
-func (c *current) onShortcutParagraph138(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph151(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph138() (interface{}, error) {
+func (p *parser) callonShortcutParagraph151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph138(stack["delimiter"])
+	return p.cur.onShortcutParagraph151(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph160() (interface{}, error) {
+func (c *current) onShortcutParagraph173() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph160() (interface{}, error) {
+func (p *parser) callonShortcutParagraph173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph160()
+	return p.cur.onShortcutParagraph173()
 }
 
-func (c *current) onShortcutParagraph166() (interface{}, error) {
+func (c *current) onShortcutParagraph179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph166() (interface{}, error) {
+func (p *parser) callonShortcutParagraph179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph166()
+	return p.cur.onShortcutParagraph179()
 }
 
-func (c *current) onShortcutParagraph169() (interface{}, error) {
+func (c *current) onShortcutParagraph182() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph169() (interface{}, error) {
+func (p *parser) callonShortcutParagraph182() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph169()
+	return p.cur.onShortcutParagraph182()
 }
 
-func (c *current) onShortcutParagraph157(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph170(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph157() (interface{}, error) {
+func (p *parser) callonShortcutParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph157(stack["delimiter"])
+	return p.cur.onShortcutParagraph170(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph179() (interface{}, error) {
+func (c *current) onShortcutParagraph192() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph179() (interface{}, error) {
+func (p *parser) callonShortcutParagraph192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph179()
+	return p.cur.onShortcutParagraph192()
 }
 
-func (c *current) onShortcutParagraph185() (interface{}, error) {
+func (c *current) onShortcutParagraph198() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph185() (interface{}, error) {
+func (p *parser) callonShortcutParagraph198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph185()
+	return p.cur.onShortcutParagraph198()
 }
 
-func (c *current) onShortcutParagraph188() (interface{}, error) {
+func (c *current) onShortcutParagraph201() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph188() (interface{}, error) {
+func (p *parser) callonShortcutParagraph201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph188()
+	return p.cur.onShortcutParagraph201()
 }
 
-func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph189(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph176() (interface{}, error) {
+func (p *parser) callonShortcutParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph176(stack["delimiter"])
+	return p.cur.onShortcutParagraph189(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph198() (interface{}, error) {
+func (c *current) onShortcutParagraph211() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph198() (interface{}, error) {
+func (p *parser) callonShortcutParagraph211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph198()
+	return p.cur.onShortcutParagraph211()
 }
 
-func (c *current) onShortcutParagraph204() (interface{}, error) {
+func (c *current) onShortcutParagraph217() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph204() (interface{}, error) {
+func (p *parser) callonShortcutParagraph217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph204()
+	return p.cur.onShortcutParagraph217()
 }
 
-func (c *current) onShortcutParagraph207() (interface{}, error) {
+func (c *current) onShortcutParagraph220() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph207() (interface{}, error) {
+func (p *parser) callonShortcutParagraph220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph207()
+	return p.cur.onShortcutParagraph220()
 }
 
-func (c *current) onShortcutParagraph195(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph208(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph195() (interface{}, error) {
+func (p *parser) callonShortcutParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph195(stack["delimiter"])
+	return p.cur.onShortcutParagraph208(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph217() (interface{}, error) {
+func (c *current) onShortcutParagraph230() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph217() (interface{}, error) {
+func (p *parser) callonShortcutParagraph230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph217()
+	return p.cur.onShortcutParagraph230()
 }
 
-func (c *current) onShortcutParagraph223() (interface{}, error) {
+func (c *current) onShortcutParagraph236() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph223() (interface{}, error) {
+func (p *parser) callonShortcutParagraph236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph223()
+	return p.cur.onShortcutParagraph236()
 }
 
-func (c *current) onShortcutParagraph226() (interface{}, error) {
+func (c *current) onShortcutParagraph239() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph226() (interface{}, error) {
+func (p *parser) callonShortcutParagraph239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph226()
+	return p.cur.onShortcutParagraph239()
 }
 
-func (c *current) onShortcutParagraph214(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph227(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph214() (interface{}, error) {
+func (p *parser) callonShortcutParagraph227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph214(stack["delimiter"])
+	return p.cur.onShortcutParagraph227(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph236() (interface{}, error) {
+func (c *current) onShortcutParagraph249() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph236() (interface{}, error) {
+func (p *parser) callonShortcutParagraph249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph236()
+	return p.cur.onShortcutParagraph249()
 }
 
-func (c *current) onShortcutParagraph242() (interface{}, error) {
+func (c *current) onShortcutParagraph255() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph242() (interface{}, error) {
+func (p *parser) callonShortcutParagraph255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph242()
+	return p.cur.onShortcutParagraph255()
 }
 
-func (c *current) onShortcutParagraph245() (interface{}, error) {
+func (c *current) onShortcutParagraph258() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph245() (interface{}, error) {
+func (p *parser) callonShortcutParagraph258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph245()
+	return p.cur.onShortcutParagraph258()
 }
 
-func (c *current) onShortcutParagraph233(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph246(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph233() (interface{}, error) {
+func (p *parser) callonShortcutParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph233(stack["delimiter"])
+	return p.cur.onShortcutParagraph246(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph76(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph89(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonShortcutParagraph76() (interface{}, error) {
+func (p *parser) callonShortcutParagraph89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph76(stack["delimiter"])
+	return p.cur.onShortcutParagraph89(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph256() (interface{}, error) {
+func (c *current) onShortcutParagraph269() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph256() (interface{}, error) {
+func (p *parser) callonShortcutParagraph269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph256()
+	return p.cur.onShortcutParagraph269()
 }
 
-func (c *current) onShortcutParagraph258() (interface{}, error) {
+func (c *current) onShortcutParagraph271() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph258() (interface{}, error) {
+func (p *parser) callonShortcutParagraph271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph258()
+	return p.cur.onShortcutParagraph271()
 }
 
-func (c *current) onShortcutParagraph271() (interface{}, error) {
+func (c *current) onShortcutParagraph284() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph271() (interface{}, error) {
+func (p *parser) callonShortcutParagraph284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph271()
+	return p.cur.onShortcutParagraph284()
 }
 
-func (c *current) onShortcutParagraph275() (interface{}, error) {
+func (c *current) onShortcutParagraph288() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph275() (interface{}, error) {
+func (p *parser) callonShortcutParagraph288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph275()
+	return p.cur.onShortcutParagraph288()
 }
 
-func (c *current) onShortcutParagraph265(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph278(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph265() (interface{}, error) {
+func (p *parser) callonShortcutParagraph278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph265(stack["content"])
+	return p.cur.onShortcutParagraph278(stack["content"])
 }
 
-func (c *current) onShortcutParagraph285() (interface{}, error) {
+func (c *current) onShortcutParagraph298() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph285() (interface{}, error) {
+func (p *parser) callonShortcutParagraph298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph285()
+	return p.cur.onShortcutParagraph298()
 }
 
-func (c *current) onShortcutParagraph288(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph301(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonShortcutParagraph288() (bool, error) {
+func (p *parser) callonShortcutParagraph301() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288(stack["content"])
+	return p.cur.onShortcutParagraph301(stack["content"])
 }
 
-func (c *current) onShortcutParagraph290() (interface{}, error) {
+func (c *current) onShortcutParagraph303() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph290() (interface{}, error) {
+func (p *parser) callonShortcutParagraph303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph290()
+	return p.cur.onShortcutParagraph303()
 }
 
-func (c *current) onShortcutParagraph282(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph282() (interface{}, error) {
+func (p *parser) callonShortcutParagraph295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph282(stack["content"])
+	return p.cur.onShortcutParagraph295(stack["content"])
 }
 
-func (c *current) onShortcutParagraph53(line interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph53() (interface{}, error) {
+func (p *parser) callonShortcutParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph53(stack["line"])
+	return p.cur.onShortcutParagraph66(stack["line"])
 }
 
 func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
@@ -68281,7 +68509,31 @@ func (p *parser) callonParagraph20() (interface{}, error) {
 	return p.cur.onParagraph20()
 }
 
+func (c *current) onParagraph28() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonParagraph28() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph28()
+}
+
+func (c *current) onParagraph31() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonParagraph31() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph31()
+}
+
 func (c *current) onParagraph5(style interface{}) (interface{}, error) {
+	// there must be some content on the line
 	return style, nil
 
 }
@@ -68292,173 +68544,173 @@ func (p *parser) callonParagraph5() (interface{}, error) {
 	return p.cur.onParagraph5(stack["style"])
 }
 
-func (c *current) onParagraph29() (interface{}, error) {
+func (c *current) onParagraph42() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph29() (interface{}, error) {
+func (p *parser) callonParagraph42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph29()
+	return p.cur.onParagraph42()
 }
 
-func (c *current) onParagraph32(content interface{}) (bool, error) {
+func (c *current) onParagraph45(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonParagraph32() (bool, error) {
+func (p *parser) callonParagraph45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph32(stack["content"])
+	return p.cur.onParagraph45(stack["content"])
 }
 
-func (c *current) onParagraph34() (interface{}, error) {
+func (c *current) onParagraph47() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph34() (interface{}, error) {
+func (p *parser) callonParagraph47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph34()
+	return p.cur.onParagraph47()
 }
 
-func (c *current) onParagraph26(content interface{}) (interface{}, error) {
+func (c *current) onParagraph39(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph26() (interface{}, error) {
+func (p *parser) callonParagraph39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph26(stack["content"])
+	return p.cur.onParagraph39(stack["content"])
 }
 
-func (c *current) onParagraph53() (interface{}, error) {
+func (c *current) onParagraph66() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph53() (interface{}, error) {
+func (p *parser) callonParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph53()
+	return p.cur.onParagraph66()
 }
 
-func (c *current) onParagraph56() (interface{}, error) {
+func (c *current) onParagraph69() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph56() (interface{}, error) {
+func (p *parser) callonParagraph69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph56()
+	return p.cur.onParagraph69()
 }
 
-func (c *current) onParagraph48() (interface{}, error) {
+func (c *current) onParagraph61() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonParagraph48() (interface{}, error) {
+func (p *parser) callonParagraph61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph48()
+	return p.cur.onParagraph61()
 }
 
-func (c *current) onParagraph73() (interface{}, error) {
+func (c *current) onParagraph86() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph73() (interface{}, error) {
+func (p *parser) callonParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph73()
+	return p.cur.onParagraph86()
 }
 
-func (c *current) onParagraph77() (interface{}, error) {
+func (c *current) onParagraph90() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph77() (interface{}, error) {
+func (p *parser) callonParagraph90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph77()
+	return p.cur.onParagraph90()
 }
 
-func (c *current) onParagraph67(content interface{}) (interface{}, error) {
+func (c *current) onParagraph80(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonParagraph67() (interface{}, error) {
+func (p *parser) callonParagraph80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph67(stack["content"])
+	return p.cur.onParagraph80(stack["content"])
 }
 
-func (c *current) onParagraph87() (interface{}, error) {
+func (c *current) onParagraph100() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph87() (interface{}, error) {
+func (p *parser) callonParagraph100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph87()
+	return p.cur.onParagraph100()
 }
 
-func (c *current) onParagraph90(content interface{}) (bool, error) {
+func (c *current) onParagraph103(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonParagraph90() (bool, error) {
+func (p *parser) callonParagraph103() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph90(stack["content"])
+	return p.cur.onParagraph103(stack["content"])
 }
 
-func (c *current) onParagraph92() (interface{}, error) {
+func (c *current) onParagraph105() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph92() (interface{}, error) {
+func (p *parser) callonParagraph105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph92()
+	return p.cur.onParagraph105()
 }
 
-func (c *current) onParagraph84(content interface{}) (interface{}, error) {
+func (c *current) onParagraph97(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph84() (interface{}, error) {
+func (p *parser) callonParagraph97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph84(stack["content"])
+	return p.cur.onParagraph97(stack["content"])
 }
 
-func (c *current) onParagraph43(line interface{}) (interface{}, error) {
+func (c *current) onParagraph56(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonParagraph43() (interface{}, error) {
+func (p *parser) callonParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph43(stack["line"])
+	return p.cur.onParagraph56(stack["line"])
 }
 
 func (c *current) onParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 0670f74..4967021 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1737,7 +1737,8 @@ ParagraphStyle <-
             return types.Caution, nil
         } / &(Spaces) { // check 
             return types.LiteralParagraph, nil
-        }) {
+        }) 
+    !(Space* EOL) { // there must be some content on the line 
             return style, nil
         }
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index a7506bc..941bef8 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -918,13 +918,21 @@ func NewListElements(elements []interface{}) (*ListElements, error) {
 		case *RawLine, *SinglelineComment:
 			// append to last element
 			if len(elmts) > 0 {
-				switch elmt := elmts[len(elmts)-1].(type) {
-				case WithElementAddition:
-					if err := elmt.AddElement(e); err != nil {
-						return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+				elmt, ok := elmts[len(elmts)-1].(WithElementAddition)
+				if ok && elmt.AddElement(e) == nil {
+					continue
+				}
+				if line, ok := e.(*RawLine); ok {
+					// the line cannot be added to the last element (eg: a delimited block), so attach it in a new paragraph
+					p, err := NewParagraph(nil, line)
+					if err != nil {
+						return nil, err
+					}
+					c, err := NewListContinuation(0, p)
+					if err != nil {
+						return nil, err
 					}
-				default:
-					return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+					elmts = append(elmts, c)
 				}
 			}
 		case *ListContinuation:
-- 
2.43.0


From 36154462b76c689db66934294e5d5faa06046d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 23/76] fix: do not discard tables whose columns are invalid

---
 pkg/parser/document_processing_apply_substitutions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 28ca6d4..6051d69 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -293,7 +293,10 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			}
 			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, Entrypoint("TableColumnsAttribute")), opts...)...)
 			if err != nil {
-				return err
+				// ignore the attribute, but keep the table
+				log.Warnf("ignoring invalid '%s' attribute '%s': %v", types.AttrCols, s, err)
+				delete(attrs, k)
+				continue
 			}
 			attrs[k] = types.Reduce(v)
 		default:
-- 
2.43.0


From 161834c8a0671bba70665fcd60fa77d55e2fa2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 24/76] fix: render example blocks with an unknown style as
 example blocks

---
 pkg/renderer/sgml/delimited_block.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block.go b/pkg/renderer/sgml/delimited_block.go
index 1b5ebdf..64826c0 100644
--- a/pkg/renderer/sgml/delimited_block.go
+++ b/pkg/renderer/sgml/delimited_block.go
@@ -9,10 +9,12 @@ import (
 func (r *sgmlRenderer) renderDelimitedBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	switch b.Kind {
 	case types.Example:
-		if b.Attributes.Has(types.AttrStyle) {
+		switch b.Attributes[types.AttrStyle] {
+		case types.Tip, types.Note, types.Important, types.Warning, types.Caution:
 			return r.renderAdmonitionBlock(ctx, b)
+		default:
+			return r.renderExampleBlock(ctx, b)
 		}
-		return r.renderExampleBlock(ctx, b)
 	case types.Fenced:
 		return r.renderFencedBlock(ctx, b)
 	case types.Literal:
-- 
2.43.0


From 42231e4db2f092d861c6aa36e0fcf0483b1e1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 25/76] fix: render labeled lists with an unknown style with
 the default layout

---
 pkg/renderer/sgml/list.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index fa0a560..84e3522 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -265,8 +265,6 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 				return nil, nil, errors.Wrap(err, "unable to load horizontal list element template")
 			}
 			return listTmpl, listElementTmpl, nil
-		default:
-			return nil, nil, errors.Errorf("unsupported labeled list layout: %s", layout)
 		}
 	}
 	listTmpl, err := r.labeledList()
-- 
2.43.0


From 2275a6cf08d49a608f03636ae7dc57520b0da42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 26/76] fix: do not parse comments as labeled lists, nor the
 content of passthroughs as links

---
 pkg/parser/parser.go  | 15450 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     3 +-
 2 files changed, 7811 insertions(+), 7642 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f2bfadc..90cf042 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
+															pos: position{line: 2884, col: 12, offset: 91105},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
+															pos: position{line: 2884, col: 12, offset: 91105},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2866, col: 12, offset: 90673},
+																pos: position{line: 2867, col: 12, offset: 90761},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2866, col: 13, offset: 90674},
+																	pos: position{line: 2867, col: 13, offset: 90762},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2866, col: 13, offset: 90674},
+																			pos: position{line: 2867, col: 13, offset: 90762},
 																			expr: &litMatcher{
-																				pos:        position{line: 2866, col: 13, offset: 90674},
+																				pos:        position{line: 2867, col: 13, offset: 90762},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2866, col: 18, offset: 90679},
+																			pos: position{line: 2867, col: 18, offset: 90767},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 18, offset: 90679},
+																				pos:        position{line: 2867, col: 18, offset: 90767},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2866, col: 12, offset: 90673},
+																pos: position{line: 2867, col: 12, offset: 90761},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2866, col: 13, offset: 90674},
+																	pos: position{line: 2867, col: 13, offset: 90762},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2866, col: 13, offset: 90674},
+																			pos: position{line: 2867, col: 13, offset: 90762},
 																			expr: &litMatcher{
-																				pos:        position{line: 2866, col: 13, offset: 90674},
+																				pos:        position{line: 2867, col: 13, offset: 90762},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2866, col: 18, offset: 90679},
+																			pos: position{line: 2867, col: 18, offset: 90767},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 18, offset: 90679},
+																				pos:        position{line: 2867, col: 18, offset: 90767},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2764, col: 13, offset: 87941},
+														pos:        position{line: 2765, col: 13, offset: 88029},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2878, col: 11, offset: 90907},
+													pos: position{line: 2879, col: 11, offset: 90995},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2878, col: 11, offset: 90907},
+														pos: position{line: 2879, col: 11, offset: 90995},
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 11, offset: 90907},
+															pos:        position{line: 2879, col: 11, offset: 90995},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2824, col: 14, offset: 89439},
+													pos: position{line: 2825, col: 14, offset: 89527},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2824, col: 14, offset: 89439},
+														pos: position{line: 2825, col: 14, offset: 89527},
 														expr: &charClassMatcher{
-															pos:        position{line: 2824, col: 14, offset: 89439},
+															pos:        position{line: 2825, col: 14, offset: 89527},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2828, col: 17, offset: 89509},
+												pos: position{line: 2829, col: 17, offset: 89597},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2828, col: 17, offset: 89509},
+													pos:   position{line: 2829, col: 17, offset: 89597},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 5, offset: 89963},
+														pos: position{line: 2846, col: 5, offset: 90051},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2845, col: 5, offset: 89963},
+															pos:   position{line: 2846, col: 5, offset: 90051},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2845, col: 14, offset: 89972},
+																pos: position{line: 2846, col: 14, offset: 90060},
 																expr: &choiceExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2846, col: 9, offset: 89982},
+																			pos: position{line: 2847, col: 9, offset: 90070},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 9, offset: 89982},
+																						pos: position{line: 2847, col: 9, offset: 90070},
 																						expr: &litMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89983},
+																							pos:        position{line: 2847, col: 10, offset: 90071},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2847, col: 9, offset: 90011},
+																						pos: position{line: 2848, col: 9, offset: 90099},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90012},
+																							pos:        position{line: 2848, col: 10, offset: 90100},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2850, col: 11, offset: 90224},
+																			pos: position{line: 2851, col: 11, offset: 90312},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2850, col: 11, offset: 90224},
+																					pos:        position{line: 2851, col: 11, offset: 90312},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2850, col: 19, offset: 90232},
+																					pos: position{line: 2851, col: 19, offset: 90320},
 																					expr: &seqExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2850, col: 21, offset: 90234},
+																								pos: position{line: 2851, col: 21, offset: 90322},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2850, col: 28, offset: 90241},
+																								pos: position{line: 2851, col: 28, offset: 90329},
 																								expr: &notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2853, col: 11, offset: 90361},
+																			pos: position{line: 2854, col: 11, offset: 90449},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 11, offset: 90361},
+																				pos:        position{line: 2854, col: 11, offset: 90449},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 12, offset: 90673},
+																				pos: position{line: 2867, col: 12, offset: 90761},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2866, col: 13, offset: 90674},
+																					pos: position{line: 2867, col: 13, offset: 90762},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2866, col: 13, offset: 90674},
+																							pos: position{line: 2867, col: 13, offset: 90762},
 																							expr: &litMatcher{
-																								pos:        position{line: 2866, col: 13, offset: 90674},
+																								pos:        position{line: 2867, col: 13, offset: 90762},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2866, col: 18, offset: 90679},
+																							pos: position{line: 2867, col: 18, offset: 90767},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 18, offset: 90679},
+																								pos:        position{line: 2867, col: 18, offset: 90767},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 12, offset: 90673},
+																				pos: position{line: 2867, col: 12, offset: 90761},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2866, col: 13, offset: 90674},
+																					pos: position{line: 2867, col: 13, offset: 90762},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2866, col: 13, offset: 90674},
+																							pos: position{line: 2867, col: 13, offset: 90762},
 																							expr: &litMatcher{
-																								pos:        position{line: 2866, col: 13, offset: 90674},
+																								pos:        position{line: 2867, col: 13, offset: 90762},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2866, col: 18, offset: 90679},
+																							pos: position{line: 2867, col: 18, offset: 90767},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 18, offset: 90679},
+																								pos:        position{line: 2867, col: 18, offset: 90767},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 12, offset: 90673},
+																		pos: position{line: 2867, col: 12, offset: 90761},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2866, col: 13, offset: 90674},
+																			pos: position{line: 2867, col: 13, offset: 90762},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2866, col: 13, offset: 90674},
+																					pos: position{line: 2867, col: 13, offset: 90762},
 																					expr: &litMatcher{
-																						pos:        position{line: 2866, col: 13, offset: 90674},
+																						pos:        position{line: 2867, col: 13, offset: 90762},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2866, col: 18, offset: 90679},
+																					pos: position{line: 2867, col: 18, offset: 90767},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 18, offset: 90679},
+																						pos:        position{line: 2867, col: 18, offset: 90767},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 12, offset: 90673},
+																									pos: position{line: 2867, col: 12, offset: 90761},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2866, col: 13, offset: 90674},
+																										pos: position{line: 2867, col: 13, offset: 90762},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2866, col: 13, offset: 90674},
+																												pos: position{line: 2867, col: 13, offset: 90762},
 																												expr: &litMatcher{
-																													pos:        position{line: 2866, col: 13, offset: 90674},
+																													pos:        position{line: 2867, col: 13, offset: 90762},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2866, col: 18, offset: 90679},
+																												pos: position{line: 2867, col: 18, offset: 90767},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 18, offset: 90679},
+																													pos:        position{line: 2867, col: 18, offset: 90767},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 12, offset: 90673},
+																									pos: position{line: 2867, col: 12, offset: 90761},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2866, col: 13, offset: 90674},
+																										pos: position{line: 2867, col: 13, offset: 90762},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2866, col: 13, offset: 90674},
+																												pos: position{line: 2867, col: 13, offset: 90762},
 																												expr: &litMatcher{
-																													pos:        position{line: 2866, col: 13, offset: 90674},
+																													pos:        position{line: 2867, col: 13, offset: 90762},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2866, col: 18, offset: 90679},
+																												pos: position{line: 2867, col: 18, offset: 90767},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 18, offset: 90679},
+																													pos:        position{line: 2867, col: 18, offset: 90767},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 12, offset: 90673},
+																							pos: position{line: 2867, col: 12, offset: 90761},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2866, col: 13, offset: 90674},
+																								pos: position{line: 2867, col: 13, offset: 90762},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2866, col: 13, offset: 90674},
+																										pos: position{line: 2867, col: 13, offset: 90762},
 																										expr: &litMatcher{
-																											pos:        position{line: 2866, col: 13, offset: 90674},
+																											pos:        position{line: 2867, col: 13, offset: 90762},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2866, col: 18, offset: 90679},
+																										pos: position{line: 2867, col: 18, offset: 90767},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 18, offset: 90679},
+																											pos:        position{line: 2867, col: 18, offset: 90767},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 12, offset: 90673},
+														pos: position{line: 2867, col: 12, offset: 90761},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2866, col: 13, offset: 90674},
+															pos: position{line: 2867, col: 13, offset: 90762},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2866, col: 13, offset: 90674},
+																	pos: position{line: 2867, col: 13, offset: 90762},
 																	expr: &litMatcher{
-																		pos:        position{line: 2866, col: 13, offset: 90674},
+																		pos:        position{line: 2867, col: 13, offset: 90762},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2866, col: 18, offset: 90679},
+																	pos: position{line: 2867, col: 18, offset: 90767},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 18, offset: 90679},
+																		pos:        position{line: 2867, col: 18, offset: 90767},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 12, offset: 90673},
+														pos: position{line: 2867, col: 12, offset: 90761},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2866, col: 13, offset: 90674},
+															pos: position{line: 2867, col: 13, offset: 90762},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2866, col: 13, offset: 90674},
+																	pos: position{line: 2867, col: 13, offset: 90762},
 																	expr: &litMatcher{
-																		pos:        position{line: 2866, col: 13, offset: 90674},
+																		pos:        position{line: 2867, col: 13, offset: 90762},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2866, col: 18, offset: 90679},
+																	pos: position{line: 2867, col: 18, offset: 90767},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 18, offset: 90679},
+																		pos:        position{line: 2867, col: 18, offset: 90767},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 12, offset: 90673},
+												pos: position{line: 2867, col: 12, offset: 90761},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2866, col: 13, offset: 90674},
+													pos: position{line: 2867, col: 13, offset: 90762},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2866, col: 13, offset: 90674},
+															pos: position{line: 2867, col: 13, offset: 90762},
 															expr: &litMatcher{
-																pos:        position{line: 2866, col: 13, offset: 90674},
+																pos:        position{line: 2867, col: 13, offset: 90762},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2866, col: 18, offset: 90679},
+															pos: position{line: 2867, col: 18, offset: 90767},
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 18, offset: 90679},
+																pos:        position{line: 2867, col: 18, offset: 90767},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2768, col: 14, offset: 88015},
+																		pos: position{line: 2769, col: 14, offset: 88103},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2768, col: 14, offset: 88015},
+																			pos: position{line: 2769, col: 14, offset: 88103},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2768, col: 14, offset: 88015},
+																				pos:        position{line: 2769, col: 14, offset: 88103},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2768, col: 14, offset: 88015},
+																				pos: position{line: 2769, col: 14, offset: 88103},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2768, col: 14, offset: 88015},
+																					pos: position{line: 2769, col: 14, offset: 88103},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2768, col: 14, offset: 88015},
+																						pos:        position{line: 2769, col: 14, offset: 88103},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2768, col: 14, offset: 88015},
+																							pos: position{line: 2769, col: 14, offset: 88103},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2768, col: 14, offset: 88015},
+																								pos: position{line: 2769, col: 14, offset: 88103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2768, col: 14, offset: 88015},
+																									pos:        position{line: 2769, col: 14, offset: 88103},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2768, col: 14, offset: 88015},
+																									pos: position{line: 2769, col: 14, offset: 88103},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2768, col: 14, offset: 88015},
+																										pos: position{line: 2769, col: 14, offset: 88103},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2768, col: 14, offset: 88015},
+																											pos:        position{line: 2769, col: 14, offset: 88103},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2768, col: 14, offset: 88015},
+																pos: position{line: 2769, col: 14, offset: 88103},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2768, col: 14, offset: 88015},
+																	pos: position{line: 2769, col: 14, offset: 88103},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2768, col: 14, offset: 88015},
+																		pos:        position{line: 2769, col: 14, offset: 88103},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2768, col: 14, offset: 88015},
+																pos: position{line: 2769, col: 14, offset: 88103},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2768, col: 14, offset: 88015},
+																	pos: position{line: 2769, col: 14, offset: 88103},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2768, col: 14, offset: 88015},
+																		pos:        position{line: 2769, col: 14, offset: 88103},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2891, col: 11, offset: 91180},
+														pos: position{line: 2892, col: 11, offset: 91268},
 														expr: &anyMatcher{
-															line: 2891, col: 13, offset: 91182,
+															line: 2892, col: 13, offset: 91270,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -4453,10 +4453,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -4558,10 +4558,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
+																										pos: position{line: 2875, col: 10, offset: 90934},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
+																											pos: position{line: 2884, col: 12, offset: 91105},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -4611,9 +4611,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -4629,21 +4629,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -4741,10 +4741,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
+																					pos: position{line: 2875, col: 10, offset: 90934},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2896, col: 8, offset: 91244},
+																				pos: position{line: 2897, col: 8, offset: 91332},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2883, col: 12, offset: 91017},
+																						pos: position{line: 2884, col: 12, offset: 91105},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2883, col: 13, offset: 91018},
+																							pos: position{line: 2884, col: 13, offset: 91106},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 13, offset: 91018},
+																									pos:        position{line: 2884, col: 13, offset: 91106},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 20, offset: 91025},
+																									pos:        position{line: 2884, col: 20, offset: 91113},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 29, offset: 91034},
+																									pos:        position{line: 2884, col: 29, offset: 91122},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -4851,10 +4851,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -4967,10 +4967,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -5027,9 +5027,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -5045,21 +5045,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -5166,10 +5166,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -5226,9 +5226,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -5280,10 +5280,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -5358,10 +5358,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30149},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -5420,21 +5420,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -5504,10 +5504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30149},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -5605,10 +5605,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -5721,10 +5721,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -5781,9 +5781,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -5799,21 +5799,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -5920,10 +5920,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -5980,9 +5980,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -6038,10 +6038,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -6154,10 +6154,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -6214,9 +6214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -6232,21 +6232,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -6353,10 +6353,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -6413,9 +6413,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -6471,10 +6471,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -6587,10 +6587,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -6647,9 +6647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -6665,21 +6665,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -6786,10 +6786,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -6846,9 +6846,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -6882,18 +6882,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -6953,12 +6953,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30684},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2824, col: 14, offset: 89439},
+																			pos: position{line: 2825, col: 14, offset: 89527},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2824, col: 14, offset: 89439},
+																				pos: position{line: 2825, col: 14, offset: 89527},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2824, col: 14, offset: 89439},
+																					pos:        position{line: 2825, col: 14, offset: 89527},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -7032,18 +7032,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2891, col: 11, offset: 91180},
+																									pos: position{line: 2892, col: 11, offset: 91268},
 																									expr: &anyMatcher{
-																										line: 2891, col: 13, offset: 91182,
+																										line: 2892, col: 13, offset: 91270,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
+																										pos: position{line: 2875, col: 10, offset: 90934},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
+																											pos: position{line: 2884, col: 12, offset: 91105},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -7103,12 +7103,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30684},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2824, col: 14, offset: 89439},
+																						pos: position{line: 2825, col: 14, offset: 89527},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2824, col: 14, offset: 89439},
+																							pos: position{line: 2825, col: 14, offset: 89527},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2824, col: 14, offset: 89439},
+																								pos:        position{line: 2825, col: 14, offset: 89527},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
+																							pos: position{line: 2884, col: 12, offset: 91105},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1785, col: 5, offset: 57667},
+																		pos: position{line: 1786, col: 5, offset: 57699},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1785, col: 5, offset: 57667},
+																			pos: position{line: 1786, col: 5, offset: 57699},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1785, col: 5, offset: 57667},
+																					pos:   position{line: 1786, col: 5, offset: 57699},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2824, col: 14, offset: 89439},
+																						pos: position{line: 2825, col: 14, offset: 89527},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2824, col: 14, offset: 89439},
+																							pos: position{line: 2825, col: 14, offset: 89527},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2824, col: 14, offset: 89439},
+																								pos:        position{line: 2825, col: 14, offset: 89527},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1786, col: 5, offset: 57691},
+																					pos: position{line: 1787, col: 5, offset: 57723},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
+																							pos: position{line: 2884, col: 12, offset: 91105},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -7266,10 +7266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -7358,10 +7358,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
+																										pos: position{line: 2875, col: 10, offset: 90934},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
+																											pos: position{line: 2884, col: 12, offset: 91105},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -7411,9 +7411,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -7429,21 +7429,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -7530,10 +7530,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
+																						pos: position{line: 2875, col: 10, offset: 90934},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
+																							pos: position{line: 2884, col: 12, offset: 91105},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -7641,10 +7641,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -7757,10 +7757,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -7817,9 +7817,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -7835,21 +7835,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -7956,10 +7956,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -8016,9 +8016,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -8074,10 +8074,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -8190,10 +8190,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -8250,9 +8250,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -8268,21 +8268,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -8389,10 +8389,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -8449,9 +8449,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -8507,10 +8507,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -8623,10 +8623,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -8683,9 +8683,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -8701,21 +8701,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -8822,10 +8822,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -8882,9 +8882,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2719, col: 18, offset: 86436},
+											pos: position{line: 2720, col: 18, offset: 86524},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2719, col: 18, offset: 86436},
+												pos: position{line: 2720, col: 18, offset: 86524},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2720, col: 9, offset: 86446},
+														pos: position{line: 2721, col: 9, offset: 86534},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2720, col: 9, offset: 86446},
+																pos:        position{line: 2721, col: 9, offset: 86534},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2721, col: 11, offset: 86482},
+																pos:        position{line: 2722, col: 11, offset: 86570},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2721, col: 19, offset: 86490},
+																pos:        position{line: 2722, col: 19, offset: 86578},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2721, col: 29, offset: 86500},
+																pos:        position{line: 2722, col: 29, offset: 86588},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2721, col: 37, offset: 86508},
+																pos:        position{line: 2722, col: 37, offset: 86596},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2721, col: 47, offset: 86518},
+																pos:        position{line: 2722, col: 47, offset: 86606},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2721, col: 55, offset: 86526},
+																pos:        position{line: 2722, col: 55, offset: 86614},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2722, col: 11, offset: 86584},
+														pos: position{line: 2723, col: 11, offset: 86672},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -9045,24 +9045,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83372},
+											pos: position{line: 2611, col: 5, offset: 83460},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83372},
+												pos: position{line: 2611, col: 5, offset: 83460},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2616, col: 19, offset: 83529},
+														pos:        position{line: 2617, col: 19, offset: 83617},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2616, col: 26, offset: 83536},
+														pos: position{line: 2617, col: 26, offset: 83624},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,20 +9101,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2611, col: 5, offset: 83396},
+														pos:   position{line: 2612, col: 5, offset: 83484},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2611, col: 11, offset: 83402},
+															pos: position{line: 2612, col: 11, offset: 83490},
 															expr: &choiceExpr{
-																pos: position{line: 2611, col: 12, offset: 83403},
+																pos: position{line: 2612, col: 12, offset: 83491},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
@@ -9123,18 +9123,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2891, col: 11, offset: 91180},
+																					pos: position{line: 2892, col: 11, offset: 91268},
 																					expr: &anyMatcher{
-																						line: 2891, col: 13, offset: 91182,
+																						line: 2892, col: 13, offset: 91270,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
+																						pos: position{line: 2875, col: 10, offset: 90934},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
+																							pos: position{line: 2884, col: 12, offset: 91105},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2623, col: 5, offset: 83648},
+																		pos: position{line: 2624, col: 5, offset: 83736},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2623, col: 5, offset: 83648},
+																			pos: position{line: 2624, col: 5, offset: 83736},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2623, col: 5, offset: 83648},
+																					pos: position{line: 2624, col: 5, offset: 83736},
 																					expr: &choiceExpr{
-																						pos: position{line: 2620, col: 22, offset: 83609},
+																						pos: position{line: 2621, col: 22, offset: 83697},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2616, col: 19, offset: 83529},
+																								pos: position{line: 2617, col: 19, offset: 83617},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2616, col: 19, offset: 83529},
+																										pos:        position{line: 2617, col: 19, offset: 83617},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2616, col: 26, offset: 83536},
+																										pos: position{line: 2617, col: 26, offset: 83624},
 																										expr: &actionExpr{
-																											pos: position{line: 2874, col: 10, offset: 90846},
+																											pos: position{line: 2875, col: 10, offset: 90934},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2874, col: 10, offset: 90846},
+																												pos:        position{line: 2875, col: 10, offset: 90934},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2896, col: 8, offset: 91244},
+																										pos: position{line: 2897, col: 8, offset: 91332},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2883, col: 12, offset: 91017},
+																												pos: position{line: 2884, col: 12, offset: 91105},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2883, col: 13, offset: 91018},
+																													pos: position{line: 2884, col: 13, offset: 91106},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2883, col: 13, offset: 91018},
+																															pos:        position{line: 2884, col: 13, offset: 91106},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2883, col: 20, offset: 91025},
+																															pos:        position{line: 2884, col: 20, offset: 91113},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2883, col: 29, offset: 91034},
+																															pos:        position{line: 2884, col: 29, offset: 91122},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2893, col: 8, offset: 91194},
+																												pos: position{line: 2894, col: 8, offset: 91282},
 																												expr: &anyMatcher{
-																													line: 2893, col: 9, offset: 91195,
+																													line: 2894, col: 9, offset: 91283,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2624, col: 5, offset: 83671},
+																					pos:   position{line: 2625, col: 5, offset: 83759},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2625, col: 9, offset: 83689},
+																						pos: position{line: 2626, col: 9, offset: 83777},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2625, col: 10, offset: 83690},
+																								pos: position{line: 2626, col: 10, offset: 83778},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2625, col: 10, offset: 83690},
+																									pos:   position{line: 2626, col: 10, offset: 83778},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2625, col: 17, offset: 83697},
+																										pos: position{line: 2626, col: 17, offset: 83785},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2633, col: 21, offset: 83893},
+																												pos: position{line: 2634, col: 21, offset: 83981},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2633, col: 21, offset: 83893},
+																													pos: position{line: 2634, col: 21, offset: 83981},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2633, col: 21, offset: 83893},
+																															pos:   position{line: 2634, col: 21, offset: 83981},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2633, col: 27, offset: 83899},
+																																pos: position{line: 2634, col: 27, offset: 83987},
 																																expr: &actionExpr{
-																																	pos: position{line: 2638, col: 5, offset: 83974},
+																																	pos: position{line: 2639, col: 5, offset: 84062},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2638, col: 5, offset: 83974},
+																																		pos: position{line: 2639, col: 5, offset: 84062},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2638, col: 5, offset: 83974},
+																																				pos:        position{line: 2639, col: 5, offset: 84062},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2638, col: 9, offset: 83978},
+																																				pos: position{line: 2639, col: 9, offset: 84066},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2874, col: 10, offset: 90846},
+																																					pos: position{line: 2875, col: 10, offset: 90934},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2874, col: 10, offset: 90846},
+																																						pos:        position{line: 2875, col: 10, offset: 90934},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2638, col: 16, offset: 83985},
+																																				pos:   position{line: 2639, col: 16, offset: 84073},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2644, col: 5, offset: 84185},
+																																					pos: position{line: 2645, col: 5, offset: 84273},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2644, col: 5, offset: 84185},
+																																						pos:   position{line: 2645, col: 5, offset: 84273},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2644, col: 14, offset: 84194},
+																																							pos: position{line: 2645, col: 14, offset: 84282},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2644, col: 14, offset: 84194},
+																																								pos: position{line: 2645, col: 14, offset: 84282},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2644, col: 14, offset: 84194},
+																																									pos:        position{line: 2645, col: 14, offset: 84282},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2896, col: 8, offset: 91244},
+																															pos: position{line: 2897, col: 8, offset: 91332},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2883, col: 12, offset: 91017},
+																																	pos: position{line: 2884, col: 12, offset: 91105},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2883, col: 13, offset: 91018},
+																																		pos: position{line: 2884, col: 13, offset: 91106},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2883, col: 13, offset: 91018},
+																																				pos:        position{line: 2884, col: 13, offset: 91106},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2883, col: 20, offset: 91025},
+																																				pos:        position{line: 2884, col: 20, offset: 91113},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2883, col: 29, offset: 91034},
+																																				pos:        position{line: 2884, col: 29, offset: 91122},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2893, col: 8, offset: 91194},
+																																	pos: position{line: 2894, col: 8, offset: 91282},
 																																	expr: &anyMatcher{
-																																		line: 2893, col: 9, offset: 91195,
+																																		line: 2894, col: 9, offset: 91283,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2650, col: 24, offset: 84330},
+																												pos: position{line: 2651, col: 24, offset: 84418},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2650, col: 24, offset: 84330},
+																													pos:   position{line: 2651, col: 24, offset: 84418},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2650, col: 30, offset: 84336},
+																														pos: position{line: 2651, col: 30, offset: 84424},
 																														expr: &actionExpr{
-																															pos: position{line: 2655, col: 5, offset: 84412},
+																															pos: position{line: 2656, col: 5, offset: 84500},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2655, col: 5, offset: 84412},
+																																pos: position{line: 2656, col: 5, offset: 84500},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84412},
+																																		pos: position{line: 2656, col: 5, offset: 84500},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2620, col: 22, offset: 83609},
+																																			pos: position{line: 2621, col: 22, offset: 83697},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2616, col: 19, offset: 83529},
+																																					pos: position{line: 2617, col: 19, offset: 83617},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2616, col: 19, offset: 83529},
+																																							pos:        position{line: 2617, col: 19, offset: 83617},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2616, col: 26, offset: 83536},
+																																							pos: position{line: 2617, col: 26, offset: 83624},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2874, col: 10, offset: 90846},
+																																								pos: position{line: 2875, col: 10, offset: 90934},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2874, col: 10, offset: 90846},
+																																									pos:        position{line: 2875, col: 10, offset: 90934},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2896, col: 8, offset: 91244},
+																																							pos: position{line: 2897, col: 8, offset: 91332},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2883, col: 12, offset: 91017},
+																																									pos: position{line: 2884, col: 12, offset: 91105},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2883, col: 13, offset: 91018},
+																																										pos: position{line: 2884, col: 13, offset: 91106},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2883, col: 13, offset: 91018},
+																																												pos:        position{line: 2884, col: 13, offset: 91106},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2883, col: 20, offset: 91025},
+																																												pos:        position{line: 2884, col: 20, offset: 91113},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2883, col: 29, offset: 91034},
+																																												pos:        position{line: 2884, col: 29, offset: 91122},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2893, col: 8, offset: 91194},
+																																									pos: position{line: 2894, col: 8, offset: 91282},
 																																									expr: &anyMatcher{
-																																										line: 2893, col: 9, offset: 91195,
+																																										line: 2894, col: 9, offset: 91283,
 																																									},
 																																								},
 																																							},
@@ -9473,16 +9473,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2893, col: 8, offset: 91194},
+																																					pos: position{line: 2894, col: 8, offset: 91282},
 																																					expr: &anyMatcher{
-																																						line: 2893, col: 9, offset: 91195,
+																																						line: 2894, col: 9, offset: 91283,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2656, col: 5, offset: 84435},
+																																		pos: position{line: 2657, col: 5, offset: 84523},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			run: (*parser).callonDocumentFragment1209,
@@ -9490,18 +9490,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2891, col: 11, offset: 91180},
+																																						pos: position{line: 2892, col: 11, offset: 91268},
 																																						expr: &anyMatcher{
-																																							line: 2891, col: 13, offset: 91182,
+																																							line: 2892, col: 13, offset: 91270,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2874, col: 10, offset: 90846},
+																																							pos: position{line: 2875, col: 10, offset: 90934},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2874, col: 10, offset: 90846},
+																																								pos:        position{line: 2875, col: 10, offset: 90934},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2896, col: 8, offset: 91244},
+																																						pos: position{line: 2897, col: 8, offset: 91332},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2883, col: 12, offset: 91017},
+																																								pos: position{line: 2884, col: 12, offset: 91105},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2883, col: 13, offset: 91018},
+																																									pos: position{line: 2884, col: 13, offset: 91106},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2883, col: 13, offset: 91018},
+																																											pos:        position{line: 2884, col: 13, offset: 91106},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2883, col: 20, offset: 91025},
+																																											pos:        position{line: 2884, col: 20, offset: 91113},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2883, col: 29, offset: 91034},
+																																											pos:        position{line: 2884, col: 29, offset: 91122},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2893, col: 8, offset: 91194},
+																																								pos: position{line: 2894, col: 8, offset: 91282},
 																																								expr: &anyMatcher{
-																																									line: 2893, col: 9, offset: 91195,
+																																									line: 2894, col: 9, offset: 91283,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2657, col: 5, offset: 84450},
+																																		pos:   position{line: 2658, col: 5, offset: 84538},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2657, col: 12, offset: 84457},
+																																			pos: position{line: 2658, col: 12, offset: 84545},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2674, col: 20, offset: 84921},
+																																				pos: position{line: 2675, col: 20, offset: 85009},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2674, col: 20, offset: 84921},
+																																					pos: position{line: 2675, col: 20, offset: 85009},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2674, col: 20, offset: 84921},
+																																						pos:        position{line: 2675, col: 20, offset: 85009},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2657, col: 31, offset: 84476},
+																																		pos:        position{line: 2658, col: 31, offset: 84564},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2657, col: 35, offset: 84480},
+																																		pos: position{line: 2658, col: 35, offset: 84568},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2874, col: 10, offset: 90846},
+																																			pos: position{line: 2875, col: 10, offset: 90934},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2874, col: 10, offset: 90846},
+																																				pos:        position{line: 2875, col: 10, offset: 90934},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2657, col: 42, offset: 84487},
+																																		pos: position{line: 2658, col: 42, offset: 84575},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2883, col: 12, offset: 91017},
+																																			pos: position{line: 2884, col: 12, offset: 91105},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2883, col: 13, offset: 91018},
+																																				pos: position{line: 2884, col: 13, offset: 91106},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2883, col: 13, offset: 91018},
+																																						pos:        position{line: 2884, col: 13, offset: 91106},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2883, col: 20, offset: 91025},
+																																						pos:        position{line: 2884, col: 20, offset: 91113},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2883, col: 29, offset: 91034},
+																																						pos:        position{line: 2884, col: 29, offset: 91122},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2657, col: 51, offset: 84496},
+																																		pos:   position{line: 2658, col: 51, offset: 84584},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2663, col: 5, offset: 84655},
+																																			pos: position{line: 2664, col: 5, offset: 84743},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2664, col: 9, offset: 84665},
+																																				pos: position{line: 2665, col: 9, offset: 84753},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2664, col: 9, offset: 84665},
+																																					pos: position{line: 2665, col: 9, offset: 84753},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2664, col: 9, offset: 84665},
+																																							pos: position{line: 2665, col: 9, offset: 84753},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2620, col: 22, offset: 83609},
+																																								pos: position{line: 2621, col: 22, offset: 83697},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2616, col: 19, offset: 83529},
+																																										pos: position{line: 2617, col: 19, offset: 83617},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2616, col: 19, offset: 83529},
+																																												pos:        position{line: 2617, col: 19, offset: 83617},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2616, col: 26, offset: 83536},
+																																												pos: position{line: 2617, col: 26, offset: 83624},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2874, col: 10, offset: 90846},
+																																													pos: position{line: 2875, col: 10, offset: 90934},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2874, col: 10, offset: 90846},
+																																														pos:        position{line: 2875, col: 10, offset: 90934},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2896, col: 8, offset: 91244},
+																																												pos: position{line: 2897, col: 8, offset: 91332},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2883, col: 12, offset: 91017},
+																																														pos: position{line: 2884, col: 12, offset: 91105},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2883, col: 13, offset: 91018},
+																																															pos: position{line: 2884, col: 13, offset: 91106},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2893, col: 8, offset: 91194},
+																																														pos: position{line: 2894, col: 8, offset: 91282},
 																																														expr: &anyMatcher{
-																																															line: 2893, col: 9, offset: 91195,
+																																															line: 2894, col: 9, offset: 91283,
 																																														},
 																																													},
 																																												},
@@ -9702,16 +9702,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2893, col: 8, offset: 91194},
+																																										pos: position{line: 2894, col: 8, offset: 91282},
 																																										expr: &anyMatcher{
-																																											line: 2893, col: 9, offset: 91195,
+																																											line: 2894, col: 9, offset: 91283,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84692},
+																																							pos: position{line: 2666, col: 9, offset: 84780},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								run: (*parser).callonDocumentFragment1261,
@@ -9719,18 +9719,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2891, col: 11, offset: 91180},
+																																											pos: position{line: 2892, col: 11, offset: 91268},
 																																											expr: &anyMatcher{
-																																												line: 2891, col: 13, offset: 91182,
+																																												line: 2892, col: 13, offset: 91270,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2874, col: 10, offset: 90846},
+																																												pos: position{line: 2875, col: 10, offset: 90934},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2874, col: 10, offset: 90846},
+																																													pos:        position{line: 2875, col: 10, offset: 90934},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2896, col: 8, offset: 91244},
+																																											pos: position{line: 2897, col: 8, offset: 91332},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2883, col: 12, offset: 91017},
+																																													pos: position{line: 2884, col: 12, offset: 91105},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2883, col: 13, offset: 91018},
+																																														pos: position{line: 2884, col: 13, offset: 91106},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2893, col: 8, offset: 91194},
+																																													pos: position{line: 2894, col: 8, offset: 91282},
 																																													expr: &anyMatcher{
-																																														line: 2893, col: 9, offset: 91195,
+																																														line: 2894, col: 9, offset: 91283,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84711},
+																																							pos: position{line: 2667, col: 9, offset: 84799},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2666, col: 11, offset: 84713},
+																																								pos: position{line: 2667, col: 11, offset: 84801},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2666, col: 11, offset: 84713},
+																																										pos:   position{line: 2667, col: 11, offset: 84801},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2666, col: 18, offset: 84720},
+																																											pos: position{line: 2667, col: 18, offset: 84808},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2674, col: 20, offset: 84921},
+																																												pos: position{line: 2675, col: 20, offset: 85009},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2674, col: 20, offset: 84921},
+																																													pos: position{line: 2675, col: 20, offset: 85009},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2674, col: 20, offset: 84921},
+																																														pos:        position{line: 2675, col: 20, offset: 85009},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2666, col: 37, offset: 84739},
+																																										pos:        position{line: 2667, col: 37, offset: 84827},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2667, col: 9, offset: 84752},
+																																							pos:   position{line: 2668, col: 9, offset: 84840},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2667, col: 18, offset: 84761},
+																																								pos: position{line: 2668, col: 18, offset: 84849},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2667, col: 18, offset: 84761},
+																																									pos: position{line: 2668, col: 18, offset: 84849},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2667, col: 18, offset: 84761},
+																																										pos:        position{line: 2668, col: 18, offset: 84849},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2669, col: 12, offset: 84823},
+																																							pos: position{line: 2670, col: 12, offset: 84911},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91244},
+																																								pos: position{line: 2897, col: 8, offset: 91332},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2883, col: 12, offset: 91017},
+																																										pos: position{line: 2884, col: 12, offset: 91105},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2883, col: 13, offset: 91018},
+																																											pos: position{line: 2884, col: 13, offset: 91106},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2883, col: 13, offset: 91018},
+																																													pos:        position{line: 2884, col: 13, offset: 91106},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2883, col: 20, offset: 91025},
+																																													pos:        position{line: 2884, col: 20, offset: 91113},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2883, col: 29, offset: 91034},
+																																													pos:        position{line: 2884, col: 29, offset: 91122},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2893, col: 8, offset: 91194},
+																																										pos: position{line: 2894, col: 8, offset: 91282},
 																																										expr: &anyMatcher{
-																																											line: 2893, col: 9, offset: 91195,
+																																											line: 2894, col: 9, offset: 91283,
 																																										},
 																																									},
 																																								},
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2891, col: 11, offset: 91180},
+																											pos: position{line: 2892, col: 11, offset: 91268},
 																											expr: &anyMatcher{
-																												line: 2891, col: 13, offset: 91182,
+																												line: 2892, col: 13, offset: 91270,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
+																												pos: position{line: 2875, col: 10, offset: 90934},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
+																													pos: position{line: 2884, col: 12, offset: 91105},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2620, col: 22, offset: 83609},
+														pos: position{line: 2621, col: 22, offset: 83697},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2616, col: 19, offset: 83529},
+																pos: position{line: 2617, col: 19, offset: 83617},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2616, col: 19, offset: 83529},
+																		pos:        position{line: 2617, col: 19, offset: 83617},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2616, col: 26, offset: 83536},
+																		pos: position{line: 2617, col: 26, offset: 83624},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -10044,36 +10044,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2481, col: 22, offset: 79760},
+											pos: position{line: 2482, col: 22, offset: 79848},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2481, col: 22, offset: 79760},
+												pos: position{line: 2482, col: 22, offset: 79848},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2486, col: 31, offset: 79981},
+														pos:        position{line: 2487, col: 31, offset: 80069},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2486, col: 36, offset: 79986},
+														pos: position{line: 2487, col: 36, offset: 80074},
 														expr: &litMatcher{
-															pos:        position{line: 2486, col: 37, offset: 79987},
+															pos:        position{line: 2487, col: 37, offset: 80075},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2481, col: 49, offset: 79787},
+														pos:   position{line: 2482, col: 49, offset: 79875},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2820, col: 13, offset: 89372},
+															pos: position{line: 2821, col: 13, offset: 89460},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2820, col: 13, offset: 89372},
+																pos: position{line: 2821, col: 13, offset: 89460},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2820, col: 13, offset: 89372},
+																	pos:        position{line: 2821, col: 13, offset: 89460},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -10151,10 +10151,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -10229,10 +10229,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38197},
 																												expr: &actionExpr{
-																													pos: position{line: 2874, col: 10, offset: 90846},
+																													pos: position{line: 2875, col: 10, offset: 90934},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 10, offset: 90846},
+																														pos:        position{line: 2875, col: 10, offset: 90934},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2896, col: 8, offset: 91244},
+																												pos: position{line: 2897, col: 8, offset: 91332},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2883, col: 12, offset: 91017},
+																														pos: position{line: 2884, col: 12, offset: 91105},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2883, col: 13, offset: 91018},
+																															pos: position{line: 2884, col: 13, offset: 91106},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 13, offset: 91018},
+																																	pos:        position{line: 2884, col: 13, offset: 91106},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 20, offset: 91025},
+																																	pos:        position{line: 2884, col: 20, offset: 91113},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2883, col: 29, offset: 91034},
+																																	pos:        position{line: 2884, col: 29, offset: 91122},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2893, col: 8, offset: 91194},
+																														pos: position{line: 2894, col: 8, offset: 91282},
 																														expr: &anyMatcher{
-																															line: 2893, col: 9, offset: 91195,
+																															line: 2894, col: 9, offset: 91283,
 																														},
 																													},
 																												},
@@ -10300,10 +10300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -10515,12 +10515,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2878, col: 11, offset: 90907},
+												pos: position{line: 2879, col: 11, offset: 90995},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2878, col: 11, offset: 90907},
+													pos: position{line: 2879, col: 11, offset: 90995},
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 11, offset: 90907},
+														pos:        position{line: 2879, col: 11, offset: 90995},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -10618,25 +10618,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2883, col: 12, offset: 91017},
+												pos: position{line: 2884, col: 12, offset: 91105},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2883, col: 13, offset: 91018},
+													pos: position{line: 2884, col: 13, offset: 91106},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2883, col: 13, offset: 91018},
+															pos:        position{line: 2884, col: 13, offset: 91106},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2883, col: 20, offset: 91025},
+															pos:        position{line: 2884, col: 20, offset: 91113},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2883, col: 29, offset: 91034},
+															pos:        position{line: 2884, col: 29, offset: 91122},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10647,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2874, col: 10, offset: 90846},
+													pos: position{line: 2875, col: 10, offset: 90934},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 10, offset: 90846},
+														pos:        position{line: 2875, col: 10, offset: 90934},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10720,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2874, col: 10, offset: 90846},
+											pos: position{line: 2875, col: 10, offset: 90934},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 10, offset: 90846},
+												pos:        position{line: 2875, col: 10, offset: 90934},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2896, col: 8, offset: 91244},
+										pos: position{line: 2897, col: 8, offset: 91332},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2883, col: 12, offset: 91017},
+												pos: position{line: 2884, col: 12, offset: 91105},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2883, col: 13, offset: 91018},
+													pos: position{line: 2884, col: 13, offset: 91106},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2883, col: 13, offset: 91018},
+															pos:        position{line: 2884, col: 13, offset: 91106},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2883, col: 20, offset: 91025},
+															pos:        position{line: 2884, col: 20, offset: 91113},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2883, col: 29, offset: 91034},
+															pos:        position{line: 2884, col: 29, offset: 91122},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2893, col: 8, offset: 91194},
+												pos: position{line: 2894, col: 8, offset: 91282},
 												expr: &anyMatcher{
-													line: 2893, col: 9, offset: 91195,
+													line: 2894, col: 9, offset: 91283,
 												},
 											},
 										},
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2468, col: 5, offset: 79306},
+										pos: position{line: 2469, col: 5, offset: 79394},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2468, col: 5, offset: 79306},
+											pos: position{line: 2469, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2468, col: 5, offset: 79306},
+													pos: position{line: 2469, col: 5, offset: 79394},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 5, offset: 79382},
+													pos:   position{line: 2472, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2472, col: 9, offset: 79400},
+														pos: position{line: 2473, col: 9, offset: 79488},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2472, col: 10, offset: 79401},
+															pos:        position{line: 2473, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 10, offset: 90846},
+										pos: position{line: 2875, col: 10, offset: 90934},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2874, col: 10, offset: 90846},
+											pos:        position{line: 2875, col: 10, offset: 90934},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11665,10 +11665,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2874, col: 10, offset: 90846},
+													pos: position{line: 2875, col: 10, offset: 90934},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 10, offset: 90846},
+														pos:        position{line: 2875, col: 10, offset: 90934},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2896, col: 8, offset: 91244},
+												pos: position{line: 2897, col: 8, offset: 91332},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2883, col: 12, offset: 91017},
+														pos: position{line: 2884, col: 12, offset: 91105},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2883, col: 13, offset: 91018},
+															pos: position{line: 2884, col: 13, offset: 91106},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2883, col: 13, offset: 91018},
+																	pos:        position{line: 2884, col: 13, offset: 91106},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 20, offset: 91025},
+																	pos:        position{line: 2884, col: 20, offset: 91113},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 29, offset: 91034},
+																	pos:        position{line: 2884, col: 29, offset: 91122},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11707,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2893, col: 8, offset: 91194},
+														pos: position{line: 2894, col: 8, offset: 91282},
 														expr: &anyMatcher{
-															line: 2893, col: 9, offset: 91195,
+															line: 2894, col: 9, offset: 91283,
 														},
 													},
 												},
@@ -11723,18 +11723,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2891, col: 11, offset: 91180},
+																pos: position{line: 2892, col: 11, offset: 91268},
 																expr: &anyMatcher{
-																	line: 2891, col: 13, offset: 91182,
+																	line: 2892, col: 13, offset: 91270,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -11827,12 +11827,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2768, col: 14, offset: 88015},
+																				pos: position{line: 2769, col: 14, offset: 88103},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2768, col: 14, offset: 88015},
+																					pos: position{line: 2769, col: 14, offset: 88103},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2768, col: 14, offset: 88015},
+																						pos:        position{line: 2769, col: 14, offset: 88103},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2791, col: 5, offset: 88500},
+																				pos: position{line: 2792, col: 5, offset: 88588},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2792, col: 9, offset: 88510},
+																					pos: position{line: 2793, col: 9, offset: 88598},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2792, col: 10, offset: 88511},
+																							pos:        position{line: 2793, col: 10, offset: 88599},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2794, col: 13, offset: 88608},
+																							pos: position{line: 2795, col: 13, offset: 88696},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2794, col: 13, offset: 88608},
+																									pos: position{line: 2795, col: 13, offset: 88696},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2797, col: 13, offset: 88708},
+																									pos:        position{line: 2798, col: 13, offset: 88796},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2797, col: 19, offset: 88714},
+																							pos:        position{line: 2798, col: 19, offset: 88802},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2800, col: 13, offset: 88752},
+																							pos: position{line: 2801, col: 13, offset: 88840},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2800, col: 13, offset: 88752},
+																									pos: position{line: 2801, col: 13, offset: 88840},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2803, col: 14, offset: 88845},
+																									pos:        position{line: 2804, col: 14, offset: 88933},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2805, col: 12, offset: 88889},
+																							pos: position{line: 2806, col: 12, offset: 88977},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2805, col: 12, offset: 88889},
+																									pos:        position{line: 2806, col: 12, offset: 88977},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2805, col: 16, offset: 88893},
+																									pos: position{line: 2806, col: 16, offset: 88981},
 																									expr: &litMatcher{
-																										pos:        position{line: 2805, col: 17, offset: 88894},
+																										pos:        position{line: 2806, col: 17, offset: 88982},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12031,10 +12031,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2813, col: 12, offset: 89154},
+																				pos: position{line: 2814, col: 12, offset: 89242},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 12, offset: 89154},
+																					pos:        position{line: 2814, col: 12, offset: 89242},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12052,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2874, col: 10, offset: 90846},
+													pos: position{line: 2875, col: 10, offset: 90934},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 10, offset: 90846},
+														pos:        position{line: 2875, col: 10, offset: 90934},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12064,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2896, col: 8, offset: 91244},
+												pos: position{line: 2897, col: 8, offset: 91332},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2883, col: 12, offset: 91017},
+														pos: position{line: 2884, col: 12, offset: 91105},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2883, col: 13, offset: 91018},
+															pos: position{line: 2884, col: 13, offset: 91106},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2883, col: 13, offset: 91018},
+																	pos:        position{line: 2884, col: 13, offset: 91106},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 20, offset: 91025},
+																	pos:        position{line: 2884, col: 20, offset: 91113},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 29, offset: 91034},
+																	pos:        position{line: 2884, col: 29, offset: 91122},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12094,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2893, col: 8, offset: 91194},
+														pos: position{line: 2894, col: 8, offset: 91282},
 														expr: &anyMatcher{
-															line: 2893, col: 9, offset: 91195,
+															line: 2894, col: 9, offset: 91283,
 														},
 													},
 												},
@@ -12110,18 +12110,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2891, col: 11, offset: 91180},
+																pos: position{line: 2892, col: 11, offset: 91268},
 																expr: &anyMatcher{
-																	line: 2891, col: 13, offset: 91182,
+																	line: 2892, col: 13, offset: 91270,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12130,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12160,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -12191,10 +12191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2874, col: 10, offset: 90846},
+													pos: position{line: 2875, col: 10, offset: 90934},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 10, offset: 90846},
+														pos:        position{line: 2875, col: 10, offset: 90934},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12203,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2896, col: 8, offset: 91244},
+												pos: position{line: 2897, col: 8, offset: 91332},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2883, col: 12, offset: 91017},
+														pos: position{line: 2884, col: 12, offset: 91105},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2883, col: 13, offset: 91018},
+															pos: position{line: 2884, col: 13, offset: 91106},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2883, col: 13, offset: 91018},
+																	pos:        position{line: 2884, col: 13, offset: 91106},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 20, offset: 91025},
+																	pos:        position{line: 2884, col: 20, offset: 91113},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 29, offset: 91034},
+																	pos:        position{line: 2884, col: 29, offset: 91122},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12233,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2893, col: 8, offset: 91194},
+														pos: position{line: 2894, col: 8, offset: 91282},
 														expr: &anyMatcher{
-															line: 2893, col: 9, offset: 91195,
+															line: 2894, col: 9, offset: 91283,
 														},
 													},
 												},
@@ -12249,18 +12249,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2891, col: 11, offset: 91180},
+																pos: position{line: 2892, col: 11, offset: 91268},
 																expr: &anyMatcher{
-																	line: 2891, col: 13, offset: 91182,
+																	line: 2892, col: 13, offset: 91270,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -12549,10 +12549,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2874, col: 10, offset: 90846},
+											pos: position{line: 2875, col: 10, offset: 90934},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 10, offset: 90846},
+												pos:        position{line: 2875, col: 10, offset: 90934},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13084,10 +13084,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13148,10 +13148,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13191,10 +13191,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2874, col: 10, offset: 90846},
+													pos: position{line: 2875, col: 10, offset: 90934},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 10, offset: 90846},
+														pos:        position{line: 2875, col: 10, offset: 90934},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13217,10 +13217,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13275,10 +13275,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 10, offset: 90846},
+												pos: position{line: 2875, col: 10, offset: 90934},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2874, col: 10, offset: 90846},
+													pos:        position{line: 2875, col: 10, offset: 90934},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13309,10 +13309,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13342,10 +13342,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2874, col: 10, offset: 90846},
+											pos: position{line: 2875, col: 10, offset: 90934},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 10, offset: 90846},
+												pos:        position{line: 2875, col: 10, offset: 90934},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13400,10 +13400,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 10, offset: 90846},
+												pos: position{line: 2875, col: 10, offset: 90934},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2874, col: 10, offset: 90846},
+													pos:        position{line: 2875, col: 10, offset: 90934},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13482,12 +13482,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2768, col: 14, offset: 88015},
+									pos: position{line: 2769, col: 14, offset: 88103},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2768, col: 14, offset: 88015},
+										pos: position{line: 2769, col: 14, offset: 88103},
 										expr: &charClassMatcher{
-											pos:        position{line: 2768, col: 14, offset: 88015},
+											pos:        position{line: 2769, col: 14, offset: 88103},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13496,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2874, col: 10, offset: 90846},
+									pos: position{line: 2875, col: 10, offset: 90934},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2874, col: 10, offset: 90846},
+										pos:        position{line: 2875, col: 10, offset: 90934},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13956,10 +13956,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 10, offset: 90846},
+												pos: position{line: 2875, col: 10, offset: 90934},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2874, col: 10, offset: 90846},
+													pos:        position{line: 2875, col: 10, offset: 90934},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,12 +13996,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2768, col: 14, offset: 88015},
+									pos: position{line: 2769, col: 14, offset: 88103},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2768, col: 14, offset: 88015},
+										pos: position{line: 2769, col: 14, offset: 88103},
 										expr: &charClassMatcher{
-											pos:        position{line: 2768, col: 14, offset: 88015},
+											pos:        position{line: 2769, col: 14, offset: 88103},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14010,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2874, col: 10, offset: 90846},
+									pos: position{line: 2875, col: 10, offset: 90934},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2874, col: 10, offset: 90846},
+										pos:        position{line: 2875, col: 10, offset: 90934},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14440,10 +14440,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14833,10 +14833,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2874, col: 10, offset: 90846},
+											pos: position{line: 2875, col: 10, offset: 90934},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 10, offset: 90846},
+												pos:        position{line: 2875, col: 10, offset: 90934},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14887,12 +14887,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2859, col: 7, offset: 90498},
+										pos: position{line: 2860, col: 7, offset: 90586},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2859, col: 7, offset: 90498},
+											pos: position{line: 2860, col: 7, offset: 90586},
 											expr: &charClassMatcher{
-												pos:        position{line: 2859, col: 7, offset: 90498},
+												pos:        position{line: 2860, col: 7, offset: 90586},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14904,10 +14904,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 10, offset: 90846},
+										pos: position{line: 2875, col: 10, offset: 90934},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2874, col: 10, offset: 90846},
+											pos:        position{line: 2875, col: 10, offset: 90934},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15100,12 +15100,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2859, col: 7, offset: 90498},
+										pos: position{line: 2860, col: 7, offset: 90586},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2859, col: 7, offset: 90498},
+											pos: position{line: 2860, col: 7, offset: 90586},
 											expr: &charClassMatcher{
-												pos:        position{line: 2859, col: 7, offset: 90498},
+												pos:        position{line: 2860, col: 7, offset: 90586},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15149,41 +15149,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2828, col: 17, offset: 89509},
+								pos: position{line: 2829, col: 17, offset: 89597},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2828, col: 17, offset: 89509},
+									pos:   position{line: 2829, col: 17, offset: 89597},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 5, offset: 89963},
+										pos: position{line: 2846, col: 5, offset: 90051},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2845, col: 5, offset: 89963},
+											pos:   position{line: 2846, col: 5, offset: 90051},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2845, col: 14, offset: 89972},
+												pos: position{line: 2846, col: 14, offset: 90060},
 												expr: &choiceExpr{
-													pos: position{line: 2846, col: 9, offset: 89982},
+													pos: position{line: 2847, col: 9, offset: 90070},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2846, col: 9, offset: 89982},
+															pos: position{line: 2847, col: 9, offset: 90070},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2846, col: 9, offset: 89982},
+																pos: position{line: 2847, col: 9, offset: 90070},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2846, col: 9, offset: 89982},
+																		pos: position{line: 2847, col: 9, offset: 90070},
 																		expr: &litMatcher{
-																			pos:        position{line: 2846, col: 10, offset: 89983},
+																			pos:        position{line: 2847, col: 10, offset: 90071},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2847, col: 9, offset: 90011},
+																		pos: position{line: 2848, col: 9, offset: 90099},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2847, col: 10, offset: 90012},
+																			pos:        position{line: 2848, col: 10, offset: 90100},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15194,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2850, col: 11, offset: 90224},
+															pos: position{line: 2851, col: 11, offset: 90312},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2850, col: 11, offset: 90224},
+																	pos:        position{line: 2851, col: 11, offset: 90312},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2850, col: 19, offset: 90232},
+																	pos: position{line: 2851, col: 19, offset: 90320},
 																	expr: &seqExpr{
-																		pos: position{line: 2850, col: 21, offset: 90234},
+																		pos: position{line: 2851, col: 21, offset: 90322},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2850, col: 21, offset: 90234},
+																				pos: position{line: 2851, col: 21, offset: 90322},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
+																					pos: position{line: 2875, col: 10, offset: 90934},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15223,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2850, col: 28, offset: 90241},
+																				pos: position{line: 2851, col: 28, offset: 90329},
 																				expr: &notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -15622,10 +15622,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2853, col: 11, offset: 90361},
+															pos: position{line: 2854, col: 11, offset: 90449},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 11, offset: 90361},
+																pos:        position{line: 2854, col: 11, offset: 90449},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15670,12 +15670,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30806},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2824, col: 14, offset: 89439},
+								pos: position{line: 2825, col: 14, offset: 89527},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2824, col: 14, offset: 89439},
+									pos: position{line: 2825, col: 14, offset: 89527},
 									expr: &charClassMatcher{
-										pos:        position{line: 2824, col: 14, offset: 89439},
+										pos:        position{line: 2825, col: 14, offset: 89527},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15685,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15715,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -15745,36 +15745,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33808},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2481, col: 22, offset: 79760},
+										pos: position{line: 2482, col: 22, offset: 79848},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2481, col: 22, offset: 79760},
+											pos: position{line: 2482, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2486, col: 31, offset: 79981},
+													pos:        position{line: 2487, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2486, col: 36, offset: 79986},
+													pos: position{line: 2487, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2486, col: 37, offset: 79987},
+														pos:        position{line: 2487, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2481, col: 49, offset: 79787},
+													pos:   position{line: 2482, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2820, col: 13, offset: 89372},
+														pos: position{line: 2821, col: 13, offset: 89460},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2820, col: 13, offset: 89372},
+															pos: position{line: 2821, col: 13, offset: 89460},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 13, offset: 89372},
+																pos:        position{line: 2821, col: 13, offset: 89460},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15784,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
+															pos: position{line: 2884, col: 12, offset: 91105},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15814,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -15867,10 +15867,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +15879,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +15909,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -15972,10 +15972,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +15984,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16014,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -16025,9 +16025,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -16043,21 +16043,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
+																							pos: position{line: 2821, col: 13, offset: 89460},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16067,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16097,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -16155,10 +16155,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16167,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16197,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -16208,9 +16208,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -16236,36 +16236,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33931},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2481, col: 22, offset: 79760},
+										pos: position{line: 2482, col: 22, offset: 79848},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2481, col: 22, offset: 79760},
+											pos: position{line: 2482, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2486, col: 31, offset: 79981},
+													pos:        position{line: 2487, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2486, col: 36, offset: 79986},
+													pos: position{line: 2487, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2486, col: 37, offset: 79987},
+														pos:        position{line: 2487, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2481, col: 49, offset: 79787},
+													pos:   position{line: 2482, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2820, col: 13, offset: 89372},
+														pos: position{line: 2821, col: 13, offset: 89460},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2820, col: 13, offset: 89372},
+															pos: position{line: 2821, col: 13, offset: 89460},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 13, offset: 89372},
+																pos:        position{line: 2821, col: 13, offset: 89460},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16275,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
+															pos: position{line: 2884, col: 12, offset: 91105},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16305,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -16358,10 +16358,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16370,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16400,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -16463,10 +16463,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -16516,9 +16516,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -16534,21 +16534,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
+																							pos: position{line: 2821, col: 13, offset: 89460},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16558,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16588,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -16646,10 +16646,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16688,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -16699,9 +16699,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -16745,10 +16745,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34686},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16799,10 +16799,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35291},
 																										expr: &actionExpr{
-																											pos: position{line: 2874, col: 10, offset: 90846},
+																											pos: position{line: 2875, col: 10, offset: 90934},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2874, col: 10, offset: 90846},
+																												pos:        position{line: 2875, col: 10, offset: 90934},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16834,10 +16834,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35390},
 																										expr: &actionExpr{
-																											pos: position{line: 2874, col: 10, offset: 90846},
+																											pos: position{line: 2875, col: 10, offset: 90934},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2874, col: 10, offset: 90846},
+																												pos:        position{line: 2875, col: 10, offset: 90934},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16869,10 +16869,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35487},
 																										expr: &actionExpr{
-																											pos: position{line: 2874, col: 10, offset: 90846},
+																											pos: position{line: 2875, col: 10, offset: 90934},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2874, col: 10, offset: 90846},
+																												pos:        position{line: 2875, col: 10, offset: 90934},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16897,9 +16897,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35609},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2891, col: 11, offset: 91180},
+																										pos: position{line: 2892, col: 11, offset: 91268},
 																										expr: &anyMatcher{
-																											line: 2891, col: 13, offset: 91182,
+																											line: 2892, col: 13, offset: 91270,
 																										},
 																									},
 																									&litMatcher{
@@ -16940,10 +16940,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34879},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
+																						pos: position{line: 2875, col: 10, offset: 90934},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16963,10 +16963,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
+																						pos: position{line: 2875, col: 10, offset: 90934},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16984,28 +16984,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -17031,36 +17031,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34461},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2481, col: 22, offset: 79760},
+															pos: position{line: 2482, col: 22, offset: 79848},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2481, col: 22, offset: 79760},
+																pos: position{line: 2482, col: 22, offset: 79848},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2486, col: 31, offset: 79981},
+																		pos:        position{line: 2487, col: 31, offset: 80069},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2486, col: 36, offset: 79986},
+																		pos: position{line: 2487, col: 36, offset: 80074},
 																		expr: &litMatcher{
-																			pos:        position{line: 2486, col: 37, offset: 79987},
+																			pos:        position{line: 2487, col: 37, offset: 80075},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2481, col: 49, offset: 79787},
+																		pos:   position{line: 2482, col: 49, offset: 79875},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2820, col: 13, offset: 89372},
+																			pos: position{line: 2821, col: 13, offset: 89460},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2820, col: 13, offset: 89372},
+																				pos: position{line: 2821, col: 13, offset: 89460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 13, offset: 89372},
+																					pos:        position{line: 2821, col: 13, offset: 89460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17070,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17100,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -17153,10 +17153,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23686},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
+																						pos: position{line: 2875, col: 10, offset: 90934},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17165,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
+																							pos: position{line: 2884, col: 12, offset: 91105},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -17258,10 +17258,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23686},
 																													expr: &actionExpr{
-																														pos: position{line: 2874, col: 10, offset: 90846},
+																														pos: position{line: 2875, col: 10, offset: 90934},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2874, col: 10, offset: 90846},
+																															pos:        position{line: 2875, col: 10, offset: 90934},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17270,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2896, col: 8, offset: 91244},
+																													pos: position{line: 2897, col: 8, offset: 91332},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2883, col: 12, offset: 91017},
+																															pos: position{line: 2884, col: 12, offset: 91105},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2883, col: 13, offset: 91018},
+																																pos: position{line: 2884, col: 13, offset: 91106},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 13, offset: 91018},
+																																		pos:        position{line: 2884, col: 13, offset: 91106},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 20, offset: 91025},
+																																		pos:        position{line: 2884, col: 20, offset: 91113},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 29, offset: 91034},
+																																		pos:        position{line: 2884, col: 29, offset: 91122},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17300,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2893, col: 8, offset: 91194},
+																															pos: position{line: 2894, col: 8, offset: 91282},
 																															expr: &anyMatcher{
-																																line: 2893, col: 9, offset: 91195,
+																																line: 2894, col: 9, offset: 91283,
 																															},
 																														},
 																													},
@@ -17311,9 +17311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -17329,21 +17329,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2891, col: 11, offset: 91180},
+																											pos: position{line: 2892, col: 11, offset: 91268},
 																											expr: &anyMatcher{
-																												line: 2891, col: 13, offset: 91182,
+																												line: 2892, col: 13, offset: 91270,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2820, col: 13, offset: 89372},
+																												pos: position{line: 2821, col: 13, offset: 89460},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2820, col: 13, offset: 89372},
+																													pos: position{line: 2821, col: 13, offset: 89460},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2820, col: 13, offset: 89372},
+																														pos:        position{line: 2821, col: 13, offset: 89460},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
+																													pos: position{line: 2884, col: 12, offset: 91105},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -17441,10 +17441,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17453,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
+																										pos: position{line: 2884, col: 12, offset: 91105},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17483,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -17494,9 +17494,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -17522,10 +17522,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35887},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17627,10 +17627,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36518},
 																													expr: &actionExpr{
-																														pos: position{line: 2874, col: 10, offset: 90846},
+																														pos: position{line: 2875, col: 10, offset: 90934},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2874, col: 10, offset: 90846},
+																															pos:        position{line: 2875, col: 10, offset: 90934},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17777,28 +17777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -17889,10 +17889,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +17901,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +17931,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -17994,10 +17994,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 10, offset: 90846},
+															pos: position{line: 2875, col: 10, offset: 90934},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 10, offset: 90846},
+																pos:        position{line: 2875, col: 10, offset: 90934},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18006,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18036,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -18047,36 +18047,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2481, col: 22, offset: 79760},
+											pos: position{line: 2482, col: 22, offset: 79848},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2481, col: 22, offset: 79760},
+												pos: position{line: 2482, col: 22, offset: 79848},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2486, col: 31, offset: 79981},
+														pos:        position{line: 2487, col: 31, offset: 80069},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2486, col: 36, offset: 79986},
+														pos: position{line: 2487, col: 36, offset: 80074},
 														expr: &litMatcher{
-															pos:        position{line: 2486, col: 37, offset: 79987},
+															pos:        position{line: 2487, col: 37, offset: 80075},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2481, col: 49, offset: 79787},
+														pos:   position{line: 2482, col: 49, offset: 79875},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2820, col: 13, offset: 89372},
+															pos: position{line: 2821, col: 13, offset: 89460},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2820, col: 13, offset: 89372},
+																pos: position{line: 2821, col: 13, offset: 89460},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2820, col: 13, offset: 89372},
+																	pos:        position{line: 2821, col: 13, offset: 89460},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18086,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -18169,10 +18169,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18181,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18211,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -18274,10 +18274,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23686},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
+																										pos: position{line: 2875, col: 10, offset: 90934},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18286,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
+																											pos: position{line: 2884, col: 12, offset: 91105},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18316,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -18327,9 +18327,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -18345,21 +18345,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2820, col: 13, offset: 89372},
+																									pos: position{line: 2821, col: 13, offset: 89460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2820, col: 13, offset: 89372},
+																										pos:        position{line: 2821, col: 13, offset: 89460},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -18457,10 +18457,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23686},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
+																					pos: position{line: 2875, col: 10, offset: 90934},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18469,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2896, col: 8, offset: 91244},
+																				pos: position{line: 2897, col: 8, offset: 91332},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2883, col: 12, offset: 91017},
+																						pos: position{line: 2884, col: 12, offset: 91105},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2883, col: 13, offset: 91018},
+																							pos: position{line: 2884, col: 13, offset: 91106},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 13, offset: 91018},
+																									pos:        position{line: 2884, col: 13, offset: 91106},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 20, offset: 91025},
+																									pos:        position{line: 2884, col: 20, offset: 91113},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 29, offset: 91034},
+																									pos:        position{line: 2884, col: 29, offset: 91122},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18499,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -18510,9 +18510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -18545,12 +18545,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2878, col: 11, offset: 90907},
+							pos: position{line: 2879, col: 11, offset: 90995},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2878, col: 11, offset: 90907},
+								pos: position{line: 2879, col: 11, offset: 90995},
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 11, offset: 90907},
+									pos:        position{line: 2879, col: 11, offset: 90995},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18567,28 +18567,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18597,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -18638,10 +18638,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35291},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18673,10 +18673,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35390},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18708,10 +18708,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35487},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18777,12 +18777,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39689},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2859, col: 7, offset: 90498},
+								pos: position{line: 2860, col: 7, offset: 90586},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2859, col: 7, offset: 90498},
+									pos: position{line: 2860, col: 7, offset: 90586},
 									expr: &charClassMatcher{
-										pos:        position{line: 2859, col: 7, offset: 90498},
+										pos:        position{line: 2860, col: 7, offset: 90586},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18851,12 +18851,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40149},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2768, col: 14, offset: 88015},
+									pos: position{line: 2769, col: 14, offset: 88103},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2768, col: 14, offset: 88015},
+										pos: position{line: 2769, col: 14, offset: 88103},
 										expr: &charClassMatcher{
-											pos:        position{line: 2768, col: 14, offset: 88015},
+											pos:        position{line: 2769, col: 14, offset: 88103},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18869,10 +18869,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2874, col: 10, offset: 90846},
+									pos: position{line: 2875, col: 10, offset: 90934},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2874, col: 10, offset: 90846},
+										pos:        position{line: 2875, col: 10, offset: 90934},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +18880,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2468, col: 5, offset: 79306},
+									pos: position{line: 2469, col: 5, offset: 79394},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2468, col: 5, offset: 79306},
+										pos: position{line: 2469, col: 5, offset: 79394},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2468, col: 5, offset: 79306},
+												pos: position{line: 2469, col: 5, offset: 79394},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2471, col: 5, offset: 79382},
+												pos:   position{line: 2472, col: 5, offset: 79470},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2472, col: 9, offset: 79400},
+													pos: position{line: 2473, col: 9, offset: 79488},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2472, col: 10, offset: 79401},
+														pos:        position{line: 2473, col: 10, offset: 79489},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18992,48 +18992,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 15, offset: 40967},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2832, col: 13, offset: 89605},
+								pos: position{line: 2833, col: 13, offset: 89693},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2832, col: 13, offset: 89605},
+									pos: position{line: 2833, col: 13, offset: 89693},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2832, col: 13, offset: 89605},
+											pos:   position{line: 2833, col: 13, offset: 89693},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2832, col: 20, offset: 89612},
+												pos: position{line: 2833, col: 20, offset: 89700},
 												expr: &actionExpr{
-													pos: position{line: 2840, col: 11, offset: 89851},
+													pos: position{line: 2841, col: 11, offset: 89939},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2840, col: 12, offset: 89852},
+														pos: position{line: 2841, col: 12, offset: 89940},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2840, col: 12, offset: 89852},
+																pos:        position{line: 2841, col: 12, offset: 89940},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 24, offset: 89864},
+																pos:        position{line: 2841, col: 24, offset: 89952},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 37, offset: 89877},
+																pos:        position{line: 2841, col: 37, offset: 89965},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 48, offset: 89888},
+																pos:        position{line: 2841, col: 48, offset: 89976},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 59, offset: 89899},
+																pos:        position{line: 2841, col: 59, offset: 89987},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19044,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2832, col: 30, offset: 89622},
+											pos:   position{line: 2833, col: 30, offset: 89710},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2845, col: 5, offset: 89963},
+												pos: position{line: 2846, col: 5, offset: 90051},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 89963},
+													pos:   position{line: 2846, col: 5, offset: 90051},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2845, col: 14, offset: 89972},
+														pos: position{line: 2846, col: 14, offset: 90060},
 														expr: &choiceExpr{
-															pos: position{line: 2846, col: 9, offset: 89982},
+															pos: position{line: 2847, col: 9, offset: 90070},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2846, col: 9, offset: 89982},
+																		pos: position{line: 2847, col: 9, offset: 90070},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				expr: &litMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 89983},
+																					pos:        position{line: 2847, col: 10, offset: 90071},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2847, col: 9, offset: 90011},
+																				pos: position{line: 2848, col: 9, offset: 90099},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2847, col: 10, offset: 90012},
+																					pos:        position{line: 2848, col: 10, offset: 90100},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19086,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2850, col: 11, offset: 90224},
+																	pos: position{line: 2851, col: 11, offset: 90312},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2850, col: 11, offset: 90224},
+																			pos:        position{line: 2851, col: 11, offset: 90312},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2850, col: 19, offset: 90232},
+																			pos: position{line: 2851, col: 19, offset: 90320},
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 21, offset: 90234},
+																				pos: position{line: 2851, col: 21, offset: 90322},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19115,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2850, col: 28, offset: 90241},
+																						pos: position{line: 2851, col: 28, offset: 90329},
 																						expr: &notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -19514,10 +19514,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2853, col: 11, offset: 90361},
+																	pos: position{line: 2854, col: 11, offset: 90449},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2853, col: 11, offset: 90361},
+																		pos:        position{line: 2854, col: 11, offset: 90449},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19544,10 +19544,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 61, offset: 41013},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19556,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19586,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -19625,48 +19625,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41259},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2832, col: 13, offset: 89605},
+								pos: position{line: 2833, col: 13, offset: 89693},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2832, col: 13, offset: 89605},
+									pos: position{line: 2833, col: 13, offset: 89693},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2832, col: 13, offset: 89605},
+											pos:   position{line: 2833, col: 13, offset: 89693},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2832, col: 20, offset: 89612},
+												pos: position{line: 2833, col: 20, offset: 89700},
 												expr: &actionExpr{
-													pos: position{line: 2840, col: 11, offset: 89851},
+													pos: position{line: 2841, col: 11, offset: 89939},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2840, col: 12, offset: 89852},
+														pos: position{line: 2841, col: 12, offset: 89940},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2840, col: 12, offset: 89852},
+																pos:        position{line: 2841, col: 12, offset: 89940},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 24, offset: 89864},
+																pos:        position{line: 2841, col: 24, offset: 89952},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 37, offset: 89877},
+																pos:        position{line: 2841, col: 37, offset: 89965},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 48, offset: 89888},
+																pos:        position{line: 2841, col: 48, offset: 89976},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 59, offset: 89899},
+																pos:        position{line: 2841, col: 59, offset: 89987},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19677,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2832, col: 30, offset: 89622},
+											pos:   position{line: 2833, col: 30, offset: 89710},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2845, col: 5, offset: 89963},
+												pos: position{line: 2846, col: 5, offset: 90051},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 89963},
+													pos:   position{line: 2846, col: 5, offset: 90051},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2845, col: 14, offset: 89972},
+														pos: position{line: 2846, col: 14, offset: 90060},
 														expr: &choiceExpr{
-															pos: position{line: 2846, col: 9, offset: 89982},
+															pos: position{line: 2847, col: 9, offset: 90070},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2846, col: 9, offset: 89982},
+																		pos: position{line: 2847, col: 9, offset: 90070},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				expr: &litMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 89983},
+																					pos:        position{line: 2847, col: 10, offset: 90071},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2847, col: 9, offset: 90011},
+																				pos: position{line: 2848, col: 9, offset: 90099},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2847, col: 10, offset: 90012},
+																					pos:        position{line: 2848, col: 10, offset: 90100},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19719,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2850, col: 11, offset: 90224},
+																	pos: position{line: 2851, col: 11, offset: 90312},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2850, col: 11, offset: 90224},
+																			pos:        position{line: 2851, col: 11, offset: 90312},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2850, col: 19, offset: 90232},
+																			pos: position{line: 2851, col: 19, offset: 90320},
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 21, offset: 90234},
+																				pos: position{line: 2851, col: 21, offset: 90322},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19748,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2850, col: 28, offset: 90241},
+																						pos: position{line: 2851, col: 28, offset: 90329},
 																						expr: &notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -20147,10 +20147,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2853, col: 11, offset: 90361},
+																	pos: position{line: 2854, col: 11, offset: 90449},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2853, col: 11, offset: 90361},
+																		pos:        position{line: 2854, col: 11, offset: 90449},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20245,12 +20245,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2768, col: 14, offset: 88015},
+									pos: position{line: 2769, col: 14, offset: 88103},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2768, col: 14, offset: 88015},
+										pos: position{line: 2769, col: 14, offset: 88103},
 										expr: &charClassMatcher{
-											pos:        position{line: 2768, col: 14, offset: 88015},
+											pos:        position{line: 2769, col: 14, offset: 88103},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20328,21 +20328,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42545},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2773, col: 5, offset: 88088},
+										pos: position{line: 2774, col: 5, offset: 88176},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2773, col: 5, offset: 88088},
+											pos: position{line: 2774, col: 5, offset: 88176},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2773, col: 5, offset: 88088},
+													pos:   position{line: 2774, col: 5, offset: 88176},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2773, col: 11, offset: 88094},
+														pos: position{line: 2774, col: 11, offset: 88182},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2773, col: 11, offset: 88094},
+															pos: position{line: 2774, col: 11, offset: 88182},
 															expr: &charClassMatcher{
-																pos:        position{line: 2773, col: 11, offset: 88094},
+																pos:        position{line: 2774, col: 11, offset: 88182},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20352,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2776, col: 5, offset: 88152},
+													pos: position{line: 2777, col: 5, offset: 88240},
 													expr: &seqExpr{
-														pos: position{line: 2777, col: 9, offset: 88163},
+														pos: position{line: 2778, col: 9, offset: 88251},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2777, col: 9, offset: 88163},
+																pos:        position{line: 2778, col: 9, offset: 88251},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2778, col: 9, offset: 88212},
+																pos: position{line: 2779, col: 9, offset: 88300},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2782, col: 5, offset: 88292},
+													pos: position{line: 2783, col: 5, offset: 88380},
 													expr: &seqExpr{
-														pos: position{line: 2783, col: 9, offset: 88303},
+														pos: position{line: 2784, col: 9, offset: 88391},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2783, col: 9, offset: 88303},
+																pos:        position{line: 2784, col: 9, offset: 88391},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2783, col: 13, offset: 88307},
+																pos:        position{line: 2784, col: 13, offset: 88395},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20394,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2878, col: 11, offset: 90907},
+										pos: position{line: 2879, col: 11, offset: 90995},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2878, col: 11, offset: 90907},
+											pos: position{line: 2879, col: 11, offset: 90995},
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 11, offset: 90907},
+												pos:        position{line: 2879, col: 11, offset: 90995},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20408,25 +20408,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80477},
+										pos: position{line: 2500, col: 5, offset: 80565},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80477},
+											pos: position{line: 2500, col: 5, offset: 80565},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80477},
+													pos: position{line: 2500, col: 5, offset: 80565},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2502, col: 5, offset: 80548},
+													pos:        position{line: 2503, col: 5, offset: 80636},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2502, col: 10, offset: 80553},
+													pos: position{line: 2503, col: 10, offset: 80641},
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 11, offset: 80554},
+														pos:        position{line: 2503, col: 11, offset: 80642},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20437,29 +20437,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2508, col: 5, offset: 80746},
+										pos: position{line: 2509, col: 5, offset: 80834},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2508, col: 5, offset: 80746},
+											pos: position{line: 2509, col: 5, offset: 80834},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2508, col: 5, offset: 80746},
+													pos: position{line: 2509, col: 5, offset: 80834},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 80817},
+													pos: position{line: 2512, col: 5, offset: 80905},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2515, col: 5, offset: 80942},
+													pos:        position{line: 2516, col: 5, offset: 81030},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2515, col: 9, offset: 80946},
+													pos: position{line: 2516, col: 9, offset: 81034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2515, col: 10, offset: 80947},
+														pos:        position{line: 2516, col: 10, offset: 81035},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20478,27 +20478,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 5, offset: 88500},
+										pos: position{line: 2792, col: 5, offset: 88588},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2792, col: 9, offset: 88510},
+											pos: position{line: 2793, col: 9, offset: 88598},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2792, col: 10, offset: 88511},
+													pos:        position{line: 2793, col: 10, offset: 88599},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 13, offset: 88608},
+													pos: position{line: 2795, col: 13, offset: 88696},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2794, col: 13, offset: 88608},
+															pos: position{line: 2795, col: 13, offset: 88696},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2797, col: 13, offset: 88708},
+															pos:        position{line: 2798, col: 13, offset: 88796},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20506,20 +20506,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2797, col: 19, offset: 88714},
+													pos:        position{line: 2798, col: 19, offset: 88802},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2800, col: 13, offset: 88752},
+													pos: position{line: 2801, col: 13, offset: 88840},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2800, col: 13, offset: 88752},
+															pos: position{line: 2801, col: 13, offset: 88840},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2803, col: 14, offset: 88845},
+															pos:        position{line: 2804, col: 14, offset: 88933},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20528,18 +20528,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2805, col: 12, offset: 88889},
+													pos: position{line: 2806, col: 12, offset: 88977},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2805, col: 12, offset: 88889},
+															pos:        position{line: 2806, col: 12, offset: 88977},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2805, col: 16, offset: 88893},
+															pos: position{line: 2806, col: 16, offset: 88981},
 															expr: &litMatcher{
-																pos:        position{line: 2805, col: 17, offset: 88894},
+																pos:        position{line: 2806, col: 17, offset: 88982},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20577,10 +20577,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37589},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20591,28 +20591,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37596},
 													expr: &choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20621,9 +20621,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -20979,23 +20979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2468, col: 5, offset: 79306},
+										pos: position{line: 2469, col: 5, offset: 79394},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2468, col: 5, offset: 79306},
+											pos: position{line: 2469, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2468, col: 5, offset: 79306},
+													pos: position{line: 2469, col: 5, offset: 79394},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 5, offset: 79382},
+													pos:   position{line: 2472, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2472, col: 9, offset: 79400},
+														pos: position{line: 2473, col: 9, offset: 79488},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2472, col: 10, offset: 79401},
+															pos:        position{line: 2473, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21007,25 +21007,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91017},
+										pos: position{line: 2884, col: 12, offset: 91105},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2883, col: 13, offset: 91018},
+											pos: position{line: 2884, col: 13, offset: 91106},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2883, col: 13, offset: 91018},
+													pos:        position{line: 2884, col: 13, offset: 91106},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 20, offset: 91025},
+													pos:        position{line: 2884, col: 20, offset: 91113},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 29, offset: 91034},
+													pos:        position{line: 2884, col: 29, offset: 91122},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21034,10 +21034,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2813, col: 12, offset: 89154},
+										pos: position{line: 2814, col: 12, offset: 89242},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 12, offset: 89154},
+											pos:        position{line: 2814, col: 12, offset: 89242},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21169,55 +21169,55 @@ var g = &grammar{
 									pos:   position{line: 1406, col: 5, offset: 45251},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2836, col: 23, offset: 89732},
+										pos: position{line: 2837, col: 23, offset: 89820},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 23, offset: 89732},
+											pos: position{line: 2837, col: 23, offset: 89820},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 23, offset: 89732},
+													pos: position{line: 2837, col: 23, offset: 89820},
 													expr: &litMatcher{
-														pos:        position{line: 2836, col: 24, offset: 89733},
+														pos:        position{line: 2837, col: 24, offset: 89821},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 28, offset: 89737},
+													pos:   position{line: 2837, col: 28, offset: 89825},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2840, col: 11, offset: 89851},
+														pos: position{line: 2841, col: 11, offset: 89939},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2840, col: 12, offset: 89852},
+															pos: position{line: 2841, col: 12, offset: 89940},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2840, col: 12, offset: 89852},
+																	pos:        position{line: 2841, col: 12, offset: 89940},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 24, offset: 89864},
+																	pos:        position{line: 2841, col: 24, offset: 89952},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 37, offset: 89877},
+																	pos:        position{line: 2841, col: 37, offset: 89965},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 48, offset: 89888},
+																	pos:        position{line: 2841, col: 48, offset: 89976},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 59, offset: 89899},
+																	pos:        position{line: 2841, col: 59, offset: 89987},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21227,38 +21227,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 44, offset: 89753},
+													pos:   position{line: 2837, col: 44, offset: 89841},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 5, offset: 89963},
+														pos: position{line: 2846, col: 5, offset: 90051},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2845, col: 5, offset: 89963},
+															pos:   position{line: 2846, col: 5, offset: 90051},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2845, col: 14, offset: 89972},
+																pos: position{line: 2846, col: 14, offset: 90060},
 																expr: &choiceExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2846, col: 9, offset: 89982},
+																			pos: position{line: 2847, col: 9, offset: 90070},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 9, offset: 89982},
+																						pos: position{line: 2847, col: 9, offset: 90070},
 																						expr: &litMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89983},
+																							pos:        position{line: 2847, col: 10, offset: 90071},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2847, col: 9, offset: 90011},
+																						pos: position{line: 2848, col: 9, offset: 90099},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90012},
+																							pos:        position{line: 2848, col: 10, offset: 90100},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21269,27 +21269,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2850, col: 11, offset: 90224},
+																			pos: position{line: 2851, col: 11, offset: 90312},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2850, col: 11, offset: 90224},
+																					pos:        position{line: 2851, col: 11, offset: 90312},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2850, col: 19, offset: 90232},
+																					pos: position{line: 2851, col: 19, offset: 90320},
 																					expr: &seqExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2850, col: 21, offset: 90234},
+																								pos: position{line: 2851, col: 21, offset: 90322},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21298,11 +21298,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2850, col: 28, offset: 90241},
+																								pos: position{line: 2851, col: 28, offset: 90329},
 																								expr: &notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -21697,10 +21697,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2853, col: 11, offset: 90361},
+																			pos: position{line: 2854, col: 11, offset: 90449},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 11, offset: 90361},
+																				pos:        position{line: 2854, col: 11, offset: 90449},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21875,48 +21875,48 @@ var g = &grammar{
 									pos:   position{line: 1419, col: 17, offset: 45666},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 13, offset: 89605},
+										pos: position{line: 2833, col: 13, offset: 89693},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2832, col: 13, offset: 89605},
+											pos: position{line: 2833, col: 13, offset: 89693},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2832, col: 13, offset: 89605},
+													pos:   position{line: 2833, col: 13, offset: 89693},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2832, col: 20, offset: 89612},
+														pos: position{line: 2833, col: 20, offset: 89700},
 														expr: &actionExpr{
-															pos: position{line: 2840, col: 11, offset: 89851},
+															pos: position{line: 2841, col: 11, offset: 89939},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2840, col: 12, offset: 89852},
+																pos: position{line: 2841, col: 12, offset: 89940},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 12, offset: 89852},
+																		pos:        position{line: 2841, col: 12, offset: 89940},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 24, offset: 89864},
+																		pos:        position{line: 2841, col: 24, offset: 89952},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 37, offset: 89877},
+																		pos:        position{line: 2841, col: 37, offset: 89965},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 48, offset: 89888},
+																		pos:        position{line: 2841, col: 48, offset: 89976},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 59, offset: 89899},
+																		pos:        position{line: 2841, col: 59, offset: 89987},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21927,38 +21927,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 30, offset: 89622},
+													pos:   position{line: 2833, col: 30, offset: 89710},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 5, offset: 89963},
+														pos: position{line: 2846, col: 5, offset: 90051},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2845, col: 5, offset: 89963},
+															pos:   position{line: 2846, col: 5, offset: 90051},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2845, col: 14, offset: 89972},
+																pos: position{line: 2846, col: 14, offset: 90060},
 																expr: &choiceExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2846, col: 9, offset: 89982},
+																			pos: position{line: 2847, col: 9, offset: 90070},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 9, offset: 89982},
+																						pos: position{line: 2847, col: 9, offset: 90070},
 																						expr: &litMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89983},
+																							pos:        position{line: 2847, col: 10, offset: 90071},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2847, col: 9, offset: 90011},
+																						pos: position{line: 2848, col: 9, offset: 90099},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90012},
+																							pos:        position{line: 2848, col: 10, offset: 90100},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21969,27 +21969,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2850, col: 11, offset: 90224},
+																			pos: position{line: 2851, col: 11, offset: 90312},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2850, col: 11, offset: 90224},
+																					pos:        position{line: 2851, col: 11, offset: 90312},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2850, col: 19, offset: 90232},
+																					pos: position{line: 2851, col: 19, offset: 90320},
 																					expr: &seqExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2850, col: 21, offset: 90234},
+																								pos: position{line: 2851, col: 21, offset: 90322},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21998,11 +21998,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2850, col: 28, offset: 90241},
+																								pos: position{line: 2851, col: 28, offset: 90329},
 																								expr: &notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -22397,10 +22397,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2853, col: 11, offset: 90361},
+																			pos: position{line: 2854, col: 11, offset: 90449},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 11, offset: 90361},
+																				pos:        position{line: 2854, col: 11, offset: 90449},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22443,48 +22443,48 @@ var g = &grammar{
 									pos:   position{line: 1424, col: 13, offset: 45833},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 13, offset: 89605},
+										pos: position{line: 2833, col: 13, offset: 89693},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2832, col: 13, offset: 89605},
+											pos: position{line: 2833, col: 13, offset: 89693},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2832, col: 13, offset: 89605},
+													pos:   position{line: 2833, col: 13, offset: 89693},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2832, col: 20, offset: 89612},
+														pos: position{line: 2833, col: 20, offset: 89700},
 														expr: &actionExpr{
-															pos: position{line: 2840, col: 11, offset: 89851},
+															pos: position{line: 2841, col: 11, offset: 89939},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2840, col: 12, offset: 89852},
+																pos: position{line: 2841, col: 12, offset: 89940},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 12, offset: 89852},
+																		pos:        position{line: 2841, col: 12, offset: 89940},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 24, offset: 89864},
+																		pos:        position{line: 2841, col: 24, offset: 89952},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 37, offset: 89877},
+																		pos:        position{line: 2841, col: 37, offset: 89965},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 48, offset: 89888},
+																		pos:        position{line: 2841, col: 48, offset: 89976},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2840, col: 59, offset: 89899},
+																		pos:        position{line: 2841, col: 59, offset: 89987},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22495,38 +22495,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2832, col: 30, offset: 89622},
+													pos:   position{line: 2833, col: 30, offset: 89710},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 5, offset: 89963},
+														pos: position{line: 2846, col: 5, offset: 90051},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2845, col: 5, offset: 89963},
+															pos:   position{line: 2846, col: 5, offset: 90051},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2845, col: 14, offset: 89972},
+																pos: position{line: 2846, col: 14, offset: 90060},
 																expr: &choiceExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2846, col: 9, offset: 89982},
+																			pos: position{line: 2847, col: 9, offset: 90070},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 9, offset: 89982},
+																						pos: position{line: 2847, col: 9, offset: 90070},
 																						expr: &litMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89983},
+																							pos:        position{line: 2847, col: 10, offset: 90071},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2847, col: 9, offset: 90011},
+																						pos: position{line: 2848, col: 9, offset: 90099},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90012},
+																							pos:        position{line: 2848, col: 10, offset: 90100},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22537,27 +22537,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2850, col: 11, offset: 90224},
+																			pos: position{line: 2851, col: 11, offset: 90312},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2850, col: 11, offset: 90224},
+																					pos:        position{line: 2851, col: 11, offset: 90312},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2850, col: 19, offset: 90232},
+																					pos: position{line: 2851, col: 19, offset: 90320},
 																					expr: &seqExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2850, col: 21, offset: 90234},
+																								pos: position{line: 2851, col: 21, offset: 90322},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22566,11 +22566,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2850, col: 28, offset: 90241},
+																								pos: position{line: 2851, col: 28, offset: 90329},
 																								expr: &notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -22965,10 +22965,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2853, col: 11, offset: 90361},
+																			pos: position{line: 2854, col: 11, offset: 90449},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 11, offset: 90361},
+																				pos:        position{line: 2854, col: 11, offset: 90449},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23020,55 +23020,55 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 9, offset: 46142},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2836, col: 23, offset: 89732},
+										pos: position{line: 2837, col: 23, offset: 89820},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 23, offset: 89732},
+											pos: position{line: 2837, col: 23, offset: 89820},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 23, offset: 89732},
+													pos: position{line: 2837, col: 23, offset: 89820},
 													expr: &litMatcher{
-														pos:        position{line: 2836, col: 24, offset: 89733},
+														pos:        position{line: 2837, col: 24, offset: 89821},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 28, offset: 89737},
+													pos:   position{line: 2837, col: 28, offset: 89825},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2840, col: 11, offset: 89851},
+														pos: position{line: 2841, col: 11, offset: 89939},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2840, col: 12, offset: 89852},
+															pos: position{line: 2841, col: 12, offset: 89940},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2840, col: 12, offset: 89852},
+																	pos:        position{line: 2841, col: 12, offset: 89940},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 24, offset: 89864},
+																	pos:        position{line: 2841, col: 24, offset: 89952},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 37, offset: 89877},
+																	pos:        position{line: 2841, col: 37, offset: 89965},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 48, offset: 89888},
+																	pos:        position{line: 2841, col: 48, offset: 89976},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 59, offset: 89899},
+																	pos:        position{line: 2841, col: 59, offset: 89987},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23078,38 +23078,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 44, offset: 89753},
+													pos:   position{line: 2837, col: 44, offset: 89841},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 5, offset: 89963},
+														pos: position{line: 2846, col: 5, offset: 90051},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2845, col: 5, offset: 89963},
+															pos:   position{line: 2846, col: 5, offset: 90051},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2845, col: 14, offset: 89972},
+																pos: position{line: 2846, col: 14, offset: 90060},
 																expr: &choiceExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2846, col: 9, offset: 89982},
+																			pos: position{line: 2847, col: 9, offset: 90070},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 9, offset: 89982},
+																						pos: position{line: 2847, col: 9, offset: 90070},
 																						expr: &litMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89983},
+																							pos:        position{line: 2847, col: 10, offset: 90071},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2847, col: 9, offset: 90011},
+																						pos: position{line: 2848, col: 9, offset: 90099},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90012},
+																							pos:        position{line: 2848, col: 10, offset: 90100},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23120,27 +23120,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2850, col: 11, offset: 90224},
+																			pos: position{line: 2851, col: 11, offset: 90312},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2850, col: 11, offset: 90224},
+																					pos:        position{line: 2851, col: 11, offset: 90312},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2850, col: 19, offset: 90232},
+																					pos: position{line: 2851, col: 19, offset: 90320},
 																					expr: &seqExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2850, col: 21, offset: 90234},
+																								pos: position{line: 2851, col: 21, offset: 90322},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23149,11 +23149,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2850, col: 28, offset: 90241},
+																								pos: position{line: 2851, col: 28, offset: 90329},
 																								expr: &notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -23548,10 +23548,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2853, col: 11, offset: 90361},
+																			pos: position{line: 2854, col: 11, offset: 90449},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 11, offset: 90361},
+																				pos:        position{line: 2854, col: 11, offset: 90449},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23591,55 +23591,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46312},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2836, col: 23, offset: 89732},
+										pos: position{line: 2837, col: 23, offset: 89820},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 23, offset: 89732},
+											pos: position{line: 2837, col: 23, offset: 89820},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 23, offset: 89732},
+													pos: position{line: 2837, col: 23, offset: 89820},
 													expr: &litMatcher{
-														pos:        position{line: 2836, col: 24, offset: 89733},
+														pos:        position{line: 2837, col: 24, offset: 89821},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 28, offset: 89737},
+													pos:   position{line: 2837, col: 28, offset: 89825},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2840, col: 11, offset: 89851},
+														pos: position{line: 2841, col: 11, offset: 89939},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2840, col: 12, offset: 89852},
+															pos: position{line: 2841, col: 12, offset: 89940},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2840, col: 12, offset: 89852},
+																	pos:        position{line: 2841, col: 12, offset: 89940},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 24, offset: 89864},
+																	pos:        position{line: 2841, col: 24, offset: 89952},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 37, offset: 89877},
+																	pos:        position{line: 2841, col: 37, offset: 89965},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 48, offset: 89888},
+																	pos:        position{line: 2841, col: 48, offset: 89976},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2840, col: 59, offset: 89899},
+																	pos:        position{line: 2841, col: 59, offset: 89987},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23649,38 +23649,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 44, offset: 89753},
+													pos:   position{line: 2837, col: 44, offset: 89841},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 5, offset: 89963},
+														pos: position{line: 2846, col: 5, offset: 90051},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2845, col: 5, offset: 89963},
+															pos:   position{line: 2846, col: 5, offset: 90051},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2845, col: 14, offset: 89972},
+																pos: position{line: 2846, col: 14, offset: 90060},
 																expr: &choiceExpr{
-																	pos: position{line: 2846, col: 9, offset: 89982},
+																	pos: position{line: 2847, col: 9, offset: 90070},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2846, col: 9, offset: 89982},
+																			pos: position{line: 2847, col: 9, offset: 90070},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2846, col: 9, offset: 89982},
+																				pos: position{line: 2847, col: 9, offset: 90070},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2846, col: 9, offset: 89982},
+																						pos: position{line: 2847, col: 9, offset: 90070},
 																						expr: &litMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 89983},
+																							pos:        position{line: 2847, col: 10, offset: 90071},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2847, col: 9, offset: 90011},
+																						pos: position{line: 2848, col: 9, offset: 90099},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90012},
+																							pos:        position{line: 2848, col: 10, offset: 90100},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23691,27 +23691,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2850, col: 11, offset: 90224},
+																			pos: position{line: 2851, col: 11, offset: 90312},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2850, col: 11, offset: 90224},
+																					pos:        position{line: 2851, col: 11, offset: 90312},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2850, col: 19, offset: 90232},
+																					pos: position{line: 2851, col: 19, offset: 90320},
 																					expr: &seqExpr{
-																						pos: position{line: 2850, col: 21, offset: 90234},
+																						pos: position{line: 2851, col: 21, offset: 90322},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2850, col: 21, offset: 90234},
+																								pos: position{line: 2851, col: 21, offset: 90322},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
+																									pos: position{line: 2875, col: 10, offset: 90934},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23720,11 +23720,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2850, col: 28, offset: 90241},
+																								pos: position{line: 2851, col: 28, offset: 90329},
 																								expr: &notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -24119,10 +24119,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2853, col: 11, offset: 90361},
+																			pos: position{line: 2854, col: 11, offset: 90449},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 11, offset: 90361},
+																				pos:        position{line: 2854, col: 11, offset: 90449},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24188,10 +24188,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24358,12 +24358,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24406,28 +24406,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24436,9 +24436,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -24468,10 +24468,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24512,12 +24512,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24589,12 +24589,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2878, col: 11, offset: 90907},
+																			pos: position{line: 2879, col: 11, offset: 90995},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 11, offset: 90907},
+																				pos:        position{line: 2879, col: 11, offset: 90995},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24638,28 +24638,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24668,9 +24668,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -24683,36 +24683,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1711, col: 5, offset: 55189},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1711, col: 5, offset: 55189},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1711, col: 5, offset: 55189},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1717, col: 5, offset: 55386},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1717, col: 5, offset: 55386},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1717, col: 5, offset: 55386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1717, col: 9, offset: 55390},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1717, col: 14, offset: 55395},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1717, col: 14, offset: 55395},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1717, col: 14, offset: 55395},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24722,18 +24722,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1717, col: 62, offset: 55443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24746,7 +24746,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1712, col: 5, offset: 55225},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1518, col: 5, offset: 49153},
@@ -24776,28 +24776,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24806,9 +24806,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -24832,88 +24832,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1662, col: 5, offset: 53836},
 														run: (*parser).callonListElements148,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1662, col: 5, offset: 53836},
-															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
-																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
-																			run: (*parser).callonListElements152,
-																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
-																							run: (*parser).callonListElements155,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
-																						run: (*parser).callonListElements158,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1662, col: 5, offset: 53836},
+																	expr: &seqExpr{
+																		pos: position{line: 2487, col: 31, offset: 80069},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2487, col: 31, offset: 80069},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2487, col: 36, offset: 80074},
+																				expr: &litMatcher{
+																					pos:        position{line: 2487, col: 37, offset: 80075},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
-																		expr: &choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListElements161,
-																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1663, col: 5, offset: 53868},
+																	expr: &seqExpr{
+																		pos: position{line: 1663, col: 6, offset: 53869},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1663, col: 6, offset: 53869},
+																				expr: &actionExpr{
+																					pos: position{line: 1668, col: 5, offset: 54019},
+																					run: (*parser).callonListElements158,
+																					expr: &seqExpr{
+																						pos: position{line: 1668, col: 5, offset: 54019},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1668, col: 5, offset: 54019},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1668, col: 16, offset: 54030},
+																									run: (*parser).callonListElements161,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1668, col: 16, offset: 54030},
+																										expr: &litMatcher{
+																											pos:        position{line: 1668, col: 17, offset: 54031},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1671, col: 5, offset: 54088},
+																								run: (*parser).callonListElements164,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
-																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																			},
+																			&notExpr{
+																				pos: position{line: 1663, col: 35, offset: 53898},
+																				expr: &choiceExpr{
+																					pos: position{line: 2897, col: 8, offset: 91332},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2884, col: 12, offset: 91105},
+																							run: (*parser).callonListElements167,
+																							expr: &choiceExpr{
+																								pos: position{line: 2884, col: 13, offset: 91106},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2894, col: 8, offset: 91282},
+																							expr: &anyMatcher{
+																								line: 2894, col: 9, offset: 91283,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1663, col: 40, offset: 53903,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
-																	},
 																},
 															},
 														},
@@ -24923,21 +24951,21 @@ var g = &grammar{
 													pos:   position{line: 1655, col: 5, offset: 53545},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
-														run: (*parser).callonListElements170,
+														pos: position{line: 1668, col: 5, offset: 54019},
+														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1668, col: 5, offset: 54019},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1668, col: 5, offset: 54019},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
-																		run: (*parser).callonListElements173,
+																		pos: position{line: 1668, col: 16, offset: 54030},
+																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1668, col: 16, offset: 54030},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1668, col: 17, offset: 54031},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -24946,8 +24974,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
-																	run: (*parser).callonListElements176,
+																	pos: position{line: 1671, col: 5, offset: 54088},
+																	run: (*parser).callonListElements182,
 																},
 															},
 														},
@@ -24957,21 +24985,21 @@ var g = &grammar{
 													pos:   position{line: 1656, col: 5, offset: 53590},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1679, col: 5, offset: 54337},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
-																run: (*parser).callonListElements179,
+																pos: position{line: 1681, col: 9, offset: 54403},
+																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1681, col: 9, offset: 54403},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1681, col: 9, offset: 54403},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
-																				run: (*parser).callonListElements182,
+																				pos: position{line: 2875, col: 10, offset: 90934},
+																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24980,28 +25008,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListElements185,
+																					pos: position{line: 2884, col: 12, offset: 91105},
+																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25010,34 +25038,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1682, col: 9, offset: 54422},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
-																				run: (*parser).callonListElements193,
+																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListElements198,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25046,28 +25074,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListElements201,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25076,9 +25104,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -25091,18 +25119,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
-																run: (*parser).callonListElements208,
+																pos: position{line: 1688, col: 9, offset: 54551},
+																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1688, col: 9, offset: 54551},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2878, col: 11, offset: 90907},
-																			run: (*parser).callonListElements210,
+																			pos: position{line: 2879, col: 11, offset: 90995},
+																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 11, offset: 90907},
+																				pos: position{line: 2879, col: 11, offset: 90995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 90907},
+																					pos:        position{line: 2879, col: 11, offset: 90995},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25111,15 +25139,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1689, col: 9, offset: 54624},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
-																				run: (*parser).callonListElements214,
+																				pos: position{line: 1689, col: 18, offset: 54633},
+																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1689, col: 18, offset: 54633},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1689, col: 18, offset: 54633},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25129,28 +25157,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListElements218,
+																					pos: position{line: 2884, col: 12, offset: 91105},
+																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25159,9 +25187,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -25219,9 +25247,9 @@ var g = &grammar{
 					pos: position{line: 1487, col: 5, offset: 48062},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&labeledExpr{
@@ -25245,18 +25273,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2891, col: 11, offset: 91180},
+																	pos: position{line: 2892, col: 11, offset: 91268},
 																	expr: &anyMatcher{
-																		line: 2891, col: 13, offset: 91182,
+																		line: 2892, col: 13, offset: 91270,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25265,28 +25293,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25295,9 +25323,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -25330,10 +25358,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
+																								pos: position{line: 2875, col: 10, offset: 90934},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25500,12 +25528,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
+																							pos: position{line: 2879, col: 11, offset: 90995},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25548,28 +25576,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25578,9 +25606,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -25610,10 +25638,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
+																								pos: position{line: 2875, col: 10, offset: 90934},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25654,12 +25682,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
+																							pos: position{line: 2879, col: 11, offset: 90995},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25731,12 +25759,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2878, col: 11, offset: 90907},
+																									pos: position{line: 2879, col: 11, offset: 90995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 11, offset: 90907},
+																										pos:        position{line: 2879, col: 11, offset: 90995},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25780,28 +25808,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25810,9 +25838,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -25825,36 +25853,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1711, col: 5, offset: 55189},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1711, col: 5, offset: 55189},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1711, col: 5, offset: 55189},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1717, col: 5, offset: 55386},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1717, col: 5, offset: 55386},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1717, col: 5, offset: 55386},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1717, col: 9, offset: 55390},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1717, col: 14, offset: 55395},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1717, col: 14, offset: 55395},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1717, col: 14, offset: 55395},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -25864,18 +25892,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1717, col: 62, offset: 55443},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
+																							pos: position{line: 2879, col: 11, offset: 90995},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25888,7 +25916,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1712, col: 5, offset: 55225},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49153},
@@ -25918,28 +25946,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
+																									pos: position{line: 2884, col: 12, offset: 91105},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25948,9 +25976,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -25974,88 +26002,116 @@ var g = &grammar{
 																			expr: &actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53836},
 																				run: (*parser).callonExtraListElement170,
-																				expr: &oneOrMoreExpr{
+																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53836},
-																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonExtraListElement174,
-																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonExtraListElement177,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
-																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonExtraListElement180,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1662, col: 5, offset: 53836},
+																							expr: &seqExpr{
+																								pos: position{line: 2487, col: 31, offset: 80069},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2487, col: 31, offset: 80069},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2487, col: 36, offset: 80074},
+																										expr: &litMatcher{
+																											pos:        position{line: 2487, col: 37, offset: 80075},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
-																								expr: &choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonExtraListElement183,
-																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1663, col: 5, offset: 53868},
+																							expr: &seqExpr{
+																								pos: position{line: 1663, col: 6, offset: 53869},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1663, col: 6, offset: 53869},
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 5, offset: 54019},
+																											run: (*parser).callonExtraListElement180,
+																											expr: &seqExpr{
+																												pos: position{line: 1668, col: 5, offset: 54019},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1668, col: 5, offset: 54019},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1668, col: 16, offset: 54030},
+																															run: (*parser).callonExtraListElement183,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1668, col: 16, offset: 54030},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1668, col: 17, offset: 54031},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1671, col: 5, offset: 54088},
+																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
-																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																									},
+																									&notExpr{
+																										pos: position{line: 1663, col: 35, offset: 53898},
+																										expr: &choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91332},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonExtraListElement189,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91106},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91282},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91283,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1663, col: 40, offset: 53903,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
-																							},
 																						},
 																					},
 																				},
@@ -26065,21 +26121,21 @@ var g = &grammar{
 																			pos:   position{line: 1655, col: 5, offset: 53545},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonExtraListElement192,
+																				pos: position{line: 1668, col: 5, offset: 54019},
+																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1668, col: 5, offset: 54019},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1668, col: 5, offset: 54019},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonExtraListElement195,
+																								pos: position{line: 1668, col: 16, offset: 54030},
+																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1668, col: 16, offset: 54030},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1668, col: 17, offset: 54031},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26088,8 +26144,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonExtraListElement198,
+																							pos: position{line: 1671, col: 5, offset: 54088},
+																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
 																				},
@@ -26099,21 +26155,21 @@ var g = &grammar{
 																			pos:   position{line: 1656, col: 5, offset: 53590},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1679, col: 5, offset: 54337},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
-																						run: (*parser).callonExtraListElement201,
+																						pos: position{line: 1681, col: 9, offset: 54403},
+																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1681, col: 9, offset: 54403},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1681, col: 9, offset: 54403},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
-																										run: (*parser).callonExtraListElement204,
+																										pos: position{line: 2875, col: 10, offset: 90934},
+																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26122,28 +26178,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonExtraListElement207,
+																											pos: position{line: 2884, col: 12, offset: 91105},
+																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26152,34 +26208,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1682, col: 9, offset: 54422},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
-																										run: (*parser).callonExtraListElement215,
+																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2891, col: 11, offset: 91180},
+																													pos: position{line: 2892, col: 11, offset: 91268},
 																													expr: &anyMatcher{
-																														line: 2891, col: 13, offset: 91182,
+																														line: 2892, col: 13, offset: 91270,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2874, col: 10, offset: 90846},
-																														run: (*parser).callonExtraListElement220,
+																														pos: position{line: 2875, col: 10, offset: 90934},
+																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2874, col: 10, offset: 90846},
+																															pos:        position{line: 2875, col: 10, offset: 90934},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26188,28 +26244,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2896, col: 8, offset: 91244},
+																													pos: position{line: 2897, col: 8, offset: 91332},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2883, col: 12, offset: 91017},
-																															run: (*parser).callonExtraListElement223,
+																															pos: position{line: 2884, col: 12, offset: 91105},
+																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2883, col: 13, offset: 91018},
+																																pos: position{line: 2884, col: 13, offset: 91106},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 13, offset: 91018},
+																																		pos:        position{line: 2884, col: 13, offset: 91106},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 20, offset: 91025},
+																																		pos:        position{line: 2884, col: 20, offset: 91113},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 29, offset: 91034},
+																																		pos:        position{line: 2884, col: 29, offset: 91122},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26218,9 +26274,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2893, col: 8, offset: 91194},
+																															pos: position{line: 2894, col: 8, offset: 91282},
 																															expr: &anyMatcher{
-																																line: 2893, col: 9, offset: 91195,
+																																line: 2894, col: 9, offset: 91283,
 																															},
 																														},
 																													},
@@ -26233,18 +26289,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
-																						run: (*parser).callonExtraListElement230,
+																						pos: position{line: 1688, col: 9, offset: 54551},
+																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1688, col: 9, offset: 54551},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2878, col: 11, offset: 90907},
-																									run: (*parser).callonExtraListElement232,
+																									pos: position{line: 2879, col: 11, offset: 90995},
+																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2878, col: 11, offset: 90907},
+																										pos: position{line: 2879, col: 11, offset: 90995},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 11, offset: 90907},
+																											pos:        position{line: 2879, col: 11, offset: 90995},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26253,15 +26309,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1689, col: 9, offset: 54624},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
-																										run: (*parser).callonExtraListElement236,
+																										pos: position{line: 1689, col: 18, offset: 54633},
+																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1689, col: 18, offset: 54633},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1689, col: 18, offset: 54633},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26271,28 +26327,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonExtraListElement240,
+																											pos: position{line: 2884, col: 12, offset: 91105},
+																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26301,9 +26357,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -26325,7 +26381,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1493, col: 13, offset: 48280},
-										run: (*parser).callonExtraListElement247,
+										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
 											pos: position{line: 1493, col: 13, offset: 48280},
 											exprs: []interface{}{
@@ -26348,7 +26404,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 1570, col: 5, offset: 50647},
-																run: (*parser).callonExtraListElement254,
+																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
 																	pos: position{line: 1570, col: 5, offset: 50647},
 																	exprs: []interface{}{
@@ -26357,17 +26413,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1577, col: 5, offset: 50855},
-																				run: (*parser).callonExtraListElement257,
+																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
 																					pos: position{line: 1577, col: 5, offset: 50855},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50855},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement260,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26383,7 +26439,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 1579, col: 9, offset: 50925},
-																										run: (*parser).callonExtraListElement264,
+																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
 																											pos: position{line: 1579, col: 9, offset: 50925},
 																											exprs: []interface{}{
@@ -26392,7 +26448,7 @@ var g = &grammar{
 																													label: "depth",
 																													expr: &actionExpr{
 																														pos: position{line: 1579, col: 16, offset: 50932},
-																														run: (*parser).callonExtraListElement267,
+																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 1579, col: 16, offset: 50932},
 																															expr: &litMatcher{
@@ -26406,14 +26462,14 @@ var g = &grammar{
 																												},
 																												&andCodeExpr{
 																													pos: position{line: 1583, col: 9, offset: 51033},
-																													run: (*parser).callonExtraListElement270,
+																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
 																										pos: position{line: 1602, col: 11, offset: 51750},
-																										run: (*parser).callonExtraListElement271,
+																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
 																											pos: position{line: 1602, col: 11, offset: 51750},
 																											exprs: []interface{}{
@@ -26438,7 +26494,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1604, col: 13, offset: 51876},
-																										run: (*parser).callonExtraListElement276,
+																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
 																											pos: position{line: 1604, col: 13, offset: 51876},
 																											exprs: []interface{}{
@@ -26460,7 +26516,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1606, col: 13, offset: 52004},
-																										run: (*parser).callonExtraListElement280,
+																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
 																											pos: position{line: 1606, col: 13, offset: 52004},
 																											exprs: []interface{}{
@@ -26482,7 +26538,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1608, col: 13, offset: 52132},
-																										run: (*parser).callonExtraListElement284,
+																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
 																											pos: position{line: 1608, col: 13, offset: 52132},
 																											exprs: []interface{}{
@@ -26507,7 +26563,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1610, col: 13, offset: 52265},
-																										run: (*parser).callonExtraListElement289,
+																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
 																											pos: position{line: 1610, col: 13, offset: 52265},
 																											exprs: []interface{}{
@@ -26534,12 +26590,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
-																							run: (*parser).callonExtraListElement294,
+																							pos: position{line: 2879, col: 11, offset: 90995},
+																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26556,7 +26612,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49153},
-																				run: (*parser).callonExtraListElement298,
+																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
 																					pos: position{line: 1518, col: 5, offset: 49153},
 																					exprs: []interface{}{
@@ -26567,7 +26623,7 @@ var g = &grammar{
 																								pos: position{line: 1518, col: 14, offset: 49162},
 																								expr: &actionExpr{
 																									pos: position{line: 1518, col: 15, offset: 49163},
-																									run: (*parser).callonExtraListElement302,
+																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1518, col: 15, offset: 49163},
 																										expr: &charClassMatcher{
@@ -26582,28 +26638,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement306,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26612,9 +26668,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -26628,7 +26684,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1620, col: 5, offset: 52544},
-																run: (*parser).callonExtraListElement313,
+																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
 																	pos: position{line: 1620, col: 5, offset: 52544},
 																	exprs: []interface{}{
@@ -26637,17 +26693,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1627, col: 5, offset: 52817},
-																				run: (*parser).callonExtraListElement316,
+																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
 																					pos: position{line: 1627, col: 5, offset: 52817},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52817},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement319,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26660,7 +26716,7 @@ var g = &grammar{
 																							label: "style",
 																							expr: &actionExpr{
 																								pos: position{line: 1629, col: 9, offset: 52845},
-																								run: (*parser).callonExtraListElement322,
+																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
 																									pos: position{line: 1629, col: 10, offset: 52846},
 																									alternatives: []interface{}{
@@ -26685,15 +26741,15 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1632, col: 7, offset: 52945},
-																							run: (*parser).callonExtraListElement327,
+																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
-																							run: (*parser).callonExtraListElement328,
+																							pos: position{line: 2879, col: 11, offset: 90995},
+																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26712,7 +26768,7 @@ var g = &grammar{
 																				pos: position{line: 1621, col: 16, offset: 52596},
 																				expr: &actionExpr{
 																					pos: position{line: 1642, col: 5, offset: 53210},
-																					run: (*parser).callonExtraListElement333,
+																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
 																						pos: position{line: 1642, col: 5, offset: 53210},
 																						exprs: []interface{}{
@@ -26733,7 +26789,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 1643, col: 7, offset: 53229},
-																											run: (*parser).callonExtraListElement339,
+																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
 																												pos:        position{line: 1643, col: 7, offset: 53229},
 																												val:        "[ ]",
@@ -26743,7 +26799,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1644, col: 7, offset: 53274},
-																											run: (*parser).callonExtraListElement341,
+																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
 																												pos:        position{line: 1644, col: 7, offset: 53274},
 																												val:        "[*]",
@@ -26753,7 +26809,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1645, col: 7, offset: 53317},
-																											run: (*parser).callonExtraListElement343,
+																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
 																												pos:        position{line: 1645, col: 7, offset: 53317},
 																												val:        "[x]",
@@ -26765,12 +26821,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
-																								run: (*parser).callonExtraListElement345,
+																								pos: position{line: 2879, col: 11, offset: 90995},
+																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2878, col: 11, offset: 90907},
+																									pos: position{line: 2879, col: 11, offset: 90995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 11, offset: 90907},
+																										pos:        position{line: 2879, col: 11, offset: 90995},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26788,7 +26844,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49153},
-																				run: (*parser).callonExtraListElement349,
+																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
 																					pos: position{line: 1518, col: 5, offset: 49153},
 																					exprs: []interface{}{
@@ -26799,7 +26855,7 @@ var g = &grammar{
 																								pos: position{line: 1518, col: 14, offset: 49162},
 																								expr: &actionExpr{
 																									pos: position{line: 1518, col: 15, offset: 49163},
-																									run: (*parser).callonExtraListElement353,
+																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1518, col: 15, offset: 49163},
 																										expr: &charClassMatcher{
@@ -26814,28 +26870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement357,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26844,9 +26900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -26859,36 +26915,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
-																run: (*parser).callonExtraListElement364,
+																pos: position{line: 1711, col: 5, offset: 55189},
+																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1711, col: 5, offset: 55189},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1711, col: 5, offset: 55189},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
-																				run: (*parser).callonExtraListElement367,
+																				pos: position{line: 1717, col: 5, offset: 55386},
+																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1717, col: 5, offset: 55386},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1717, col: 5, offset: 55386},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1717, col: 9, offset: 55390},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
-																								run: (*parser).callonExtraListElement371,
+																								pos: position{line: 1717, col: 14, offset: 55395},
+																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1717, col: 14, offset: 55395},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1717, col: 14, offset: 55395},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26898,18 +26954,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1717, col: 62, offset: 55443},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
-																							run: (*parser).callonExtraListElement375,
+																							pos: position{line: 2879, col: 11, offset: 90995},
+																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26922,11 +26978,11 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1712, col: 5, offset: 55225},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49153},
-																				run: (*parser).callonExtraListElement379,
+																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
 																					pos: position{line: 1518, col: 5, offset: 49153},
 																					exprs: []interface{}{
@@ -26937,7 +26993,7 @@ var g = &grammar{
 																								pos: position{line: 1518, col: 14, offset: 49162},
 																								expr: &actionExpr{
 																									pos: position{line: 1518, col: 15, offset: 49163},
-																									run: (*parser).callonExtraListElement383,
+																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1518, col: 15, offset: 49163},
 																										expr: &charClassMatcher{
@@ -26952,28 +27008,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement387,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26982,9 +27038,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -26998,7 +27054,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1654, col: 5, offset: 53510},
-																run: (*parser).callonExtraListElement394,
+																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
 																	pos: position{line: 1654, col: 5, offset: 53510},
 																	exprs: []interface{}{
@@ -27007,89 +27063,117 @@ var g = &grammar{
 																			label: "term",
 																			expr: &actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonExtraListElement397,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonExtraListElement403,
+																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53836},
-																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonExtraListElement401,
-																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonExtraListElement404,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
-																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonExtraListElement407,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1662, col: 5, offset: 53836},
+																							expr: &seqExpr{
+																								pos: position{line: 2487, col: 31, offset: 80069},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2487, col: 31, offset: 80069},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2487, col: 36, offset: 80074},
+																										expr: &litMatcher{
+																											pos:        position{line: 2487, col: 37, offset: 80075},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
-																								expr: &choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonExtraListElement410,
-																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1663, col: 5, offset: 53868},
+																							expr: &seqExpr{
+																								pos: position{line: 1663, col: 6, offset: 53869},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1663, col: 6, offset: 53869},
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 5, offset: 54019},
+																											run: (*parser).callonExtraListElement413,
+																											expr: &seqExpr{
+																												pos: position{line: 1668, col: 5, offset: 54019},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1668, col: 5, offset: 54019},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1668, col: 16, offset: 54030},
+																															run: (*parser).callonExtraListElement416,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1668, col: 16, offset: 54030},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1668, col: 17, offset: 54031},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1671, col: 5, offset: 54088},
+																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
-																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																									},
+																									&notExpr{
+																										pos: position{line: 1663, col: 35, offset: 53898},
+																										expr: &choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91332},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonExtraListElement422,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91106},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91282},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91283,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1663, col: 40, offset: 53903,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
-																							},
 																						},
 																					},
 																				},
@@ -27099,21 +27183,21 @@ var g = &grammar{
 																			pos:   position{line: 1655, col: 5, offset: 53545},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonExtraListElement419,
+																				pos: position{line: 1668, col: 5, offset: 54019},
+																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1668, col: 5, offset: 54019},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1668, col: 5, offset: 54019},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonExtraListElement422,
+																								pos: position{line: 1668, col: 16, offset: 54030},
+																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1668, col: 16, offset: 54030},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1668, col: 17, offset: 54031},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27122,8 +27206,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonExtraListElement425,
+																							pos: position{line: 1671, col: 5, offset: 54088},
+																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
 																				},
@@ -27133,21 +27217,21 @@ var g = &grammar{
 																			pos:   position{line: 1656, col: 5, offset: 53590},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1679, col: 5, offset: 54337},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
-																						run: (*parser).callonExtraListElement428,
+																						pos: position{line: 1681, col: 9, offset: 54403},
+																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1681, col: 9, offset: 54403},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1681, col: 9, offset: 54403},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
-																										run: (*parser).callonExtraListElement431,
+																										pos: position{line: 2875, col: 10, offset: 90934},
+																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27156,28 +27240,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonExtraListElement434,
+																											pos: position{line: 2884, col: 12, offset: 91105},
+																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27186,34 +27270,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1682, col: 9, offset: 54422},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
-																										run: (*parser).callonExtraListElement442,
+																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2891, col: 11, offset: 91180},
+																													pos: position{line: 2892, col: 11, offset: 91268},
 																													expr: &anyMatcher{
-																														line: 2891, col: 13, offset: 91182,
+																														line: 2892, col: 13, offset: 91270,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2874, col: 10, offset: 90846},
-																														run: (*parser).callonExtraListElement447,
+																														pos: position{line: 2875, col: 10, offset: 90934},
+																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2874, col: 10, offset: 90846},
+																															pos:        position{line: 2875, col: 10, offset: 90934},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27222,28 +27306,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2896, col: 8, offset: 91244},
+																													pos: position{line: 2897, col: 8, offset: 91332},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2883, col: 12, offset: 91017},
-																															run: (*parser).callonExtraListElement450,
+																															pos: position{line: 2884, col: 12, offset: 91105},
+																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2883, col: 13, offset: 91018},
+																																pos: position{line: 2884, col: 13, offset: 91106},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 13, offset: 91018},
+																																		pos:        position{line: 2884, col: 13, offset: 91106},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 20, offset: 91025},
+																																		pos:        position{line: 2884, col: 20, offset: 91113},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2883, col: 29, offset: 91034},
+																																		pos:        position{line: 2884, col: 29, offset: 91122},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27252,9 +27336,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2893, col: 8, offset: 91194},
+																															pos: position{line: 2894, col: 8, offset: 91282},
 																															expr: &anyMatcher{
-																																line: 2893, col: 9, offset: 91195,
+																																line: 2894, col: 9, offset: 91283,
 																															},
 																														},
 																													},
@@ -27267,18 +27351,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
-																						run: (*parser).callonExtraListElement457,
+																						pos: position{line: 1688, col: 9, offset: 54551},
+																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1688, col: 9, offset: 54551},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2878, col: 11, offset: 90907},
-																									run: (*parser).callonExtraListElement459,
+																									pos: position{line: 2879, col: 11, offset: 90995},
+																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2878, col: 11, offset: 90907},
+																										pos: position{line: 2879, col: 11, offset: 90995},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 11, offset: 90907},
+																											pos:        position{line: 2879, col: 11, offset: 90995},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27287,15 +27371,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1689, col: 9, offset: 54624},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
-																										run: (*parser).callonExtraListElement463,
+																										pos: position{line: 1689, col: 18, offset: 54633},
+																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1689, col: 18, offset: 54633},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1689, col: 18, offset: 54633},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27305,28 +27389,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonExtraListElement467,
+																											pos: position{line: 2884, col: 12, offset: 91105},
+																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27335,9 +27419,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -27362,36 +27446,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2481, col: 22, offset: 79760},
-										run: (*parser).callonExtraListElement475,
+										pos: position{line: 2482, col: 22, offset: 79848},
+										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2481, col: 22, offset: 79760},
+											pos: position{line: 2482, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2486, col: 31, offset: 79981},
+													pos:        position{line: 2487, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2486, col: 36, offset: 79986},
+													pos: position{line: 2487, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2486, col: 37, offset: 79987},
+														pos:        position{line: 2487, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2481, col: 49, offset: 79787},
+													pos:   position{line: 2482, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2820, col: 13, offset: 89372},
-														run: (*parser).callonExtraListElement481,
+														pos: position{line: 2821, col: 13, offset: 89460},
+														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2820, col: 13, offset: 89372},
+															pos: position{line: 2821, col: 13, offset: 89460},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 13, offset: 89372},
+																pos:        position{line: 2821, col: 13, offset: 89460},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27401,28 +27485,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonExtraListElement485,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27431,9 +27515,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -27443,7 +27527,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1505, col: 5, offset: 48795},
-										run: (*parser).callonExtraListElement492,
+										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
 											pos: position{line: 1505, col: 5, offset: 48795},
 											exprs: []interface{}{
@@ -27451,23 +27535,23 @@ var g = &grammar{
 													pos: position{line: 1505, col: 5, offset: 48795},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
-														run: (*parser).callonExtraListElement495,
+														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2891, col: 11, offset: 91180},
+																	pos: position{line: 2892, col: 11, offset: 91268},
 																	expr: &anyMatcher{
-																		line: 2891, col: 13, offset: 91182,
+																		line: 2892, col: 13, offset: 91270,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonExtraListElement500,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27476,28 +27560,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonExtraListElement503,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27506,9 +27590,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -27531,10 +27615,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1536, col: 31, offset: 49640},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
-																	run: (*parser).callonExtraListElement514,
+																	pos: position{line: 2875, col: 10, offset: 90934},
+																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27543,25 +27627,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
-																run: (*parser).callonExtraListElement516,
+																pos: position{line: 2884, col: 12, offset: 91105},
+																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27576,17 +27660,17 @@ var g = &grammar{
 													pos: position{line: 1507, col: 5, offset: 48838},
 													expr: &actionExpr{
 														pos: position{line: 1577, col: 5, offset: 50855},
-														run: (*parser).callonExtraListElement522,
+														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
 															pos: position{line: 1577, col: 5, offset: 50855},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonExtraListElement525,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27602,7 +27686,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1579, col: 9, offset: 50925},
-																				run: (*parser).callonExtraListElement529,
+																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
 																					pos: position{line: 1579, col: 9, offset: 50925},
 																					exprs: []interface{}{
@@ -27611,7 +27695,7 @@ var g = &grammar{
 																							label: "depth",
 																							expr: &actionExpr{
 																								pos: position{line: 1579, col: 16, offset: 50932},
-																								run: (*parser).callonExtraListElement532,
+																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1579, col: 16, offset: 50932},
 																									expr: &litMatcher{
@@ -27625,14 +27709,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1583, col: 9, offset: 51033},
-																							run: (*parser).callonExtraListElement535,
+																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
 																				pos: position{line: 1602, col: 11, offset: 51750},
-																				run: (*parser).callonExtraListElement536,
+																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
 																					pos: position{line: 1602, col: 11, offset: 51750},
 																					exprs: []interface{}{
@@ -27657,7 +27741,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1604, col: 13, offset: 51876},
-																				run: (*parser).callonExtraListElement541,
+																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
 																					pos: position{line: 1604, col: 13, offset: 51876},
 																					exprs: []interface{}{
@@ -27679,7 +27763,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1606, col: 13, offset: 52004},
-																				run: (*parser).callonExtraListElement545,
+																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
 																					pos: position{line: 1606, col: 13, offset: 52004},
 																					exprs: []interface{}{
@@ -27701,7 +27785,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1608, col: 13, offset: 52132},
-																				run: (*parser).callonExtraListElement549,
+																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
 																					pos: position{line: 1608, col: 13, offset: 52132},
 																					exprs: []interface{}{
@@ -27726,7 +27810,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1610, col: 13, offset: 52265},
-																				run: (*parser).callonExtraListElement554,
+																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
 																					pos: position{line: 1610, col: 13, offset: 52265},
 																					exprs: []interface{}{
@@ -27753,12 +27837,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
-																	run: (*parser).callonExtraListElement559,
+																	pos: position{line: 2879, col: 11, offset: 90995},
+																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27774,17 +27858,17 @@ var g = &grammar{
 													pos: position{line: 1508, col: 5, offset: 48868},
 													expr: &actionExpr{
 														pos: position{line: 1627, col: 5, offset: 52817},
-														run: (*parser).callonExtraListElement563,
+														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
 															pos: position{line: 1627, col: 5, offset: 52817},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonExtraListElement566,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27797,7 +27881,7 @@ var g = &grammar{
 																	label: "style",
 																	expr: &actionExpr{
 																		pos: position{line: 1629, col: 9, offset: 52845},
-																		run: (*parser).callonExtraListElement569,
+																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
 																			pos: position{line: 1629, col: 10, offset: 52846},
 																			alternatives: []interface{}{
@@ -27822,15 +27906,15 @@ var g = &grammar{
 																},
 																&andCodeExpr{
 																	pos: position{line: 1632, col: 7, offset: 52945},
-																	run: (*parser).callonExtraListElement574,
+																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
-																	run: (*parser).callonExtraListElement575,
+																	pos: position{line: 2879, col: 11, offset: 90995},
+																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27845,27 +27929,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1509, col: 5, offset: 48900},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
-														run: (*parser).callonExtraListElement579,
+														pos: position{line: 1717, col: 5, offset: 55386},
+														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1717, col: 5, offset: 55386},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1717, col: 5, offset: 55386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1717, col: 9, offset: 55390},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
-																		run: (*parser).callonExtraListElement583,
+																		pos: position{line: 1717, col: 14, offset: 55395},
+																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1717, col: 14, offset: 55395},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1717, col: 14, offset: 55395},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -27875,18 +27959,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1717, col: 62, offset: 55443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
-																	run: (*parser).callonExtraListElement587,
+																	pos: position{line: 2879, col: 11, offset: 90995},
+																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27905,109 +27989,137 @@ var g = &grammar{
 														exprs: []interface{}{
 															&actionExpr{
 																pos: position{line: 1662, col: 5, offset: 53836},
-																run: (*parser).callonExtraListElement592,
-																expr: &oneOrMoreExpr{
+																run: (*parser).callonExtraListElement604,
+																expr: &seqExpr{
 																	pos: position{line: 1662, col: 5, offset: 53836},
-																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
-																		exprs: []interface{}{
-																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53837},
-																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
-																					run: (*parser).callonExtraListElement596,
-																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 53987},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 53987},
-																								label: "separator",
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
-																									run: (*parser).callonExtraListElement599,
-																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 53998},
-																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 53999},
-																											val:        ":",
-																											ignoreCase: false,
-																											want:       "\":\"",
-																										},
-																									},
-																								},
-																							},
-																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54056},
-																								run: (*parser).callonExtraListElement602,
-																							},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1662, col: 5, offset: 53836},
+																			expr: &seqExpr{
+																				pos: position{line: 2487, col: 31, offset: 80069},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2487, col: 31, offset: 80069},
+																						val:        "//",
+																						ignoreCase: false,
+																						want:       "\"//\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 2487, col: 36, offset: 80074},
+																						expr: &litMatcher{
+																							pos:        position{line: 2487, col: 37, offset: 80075},
+																							val:        "//",
+																							ignoreCase: false,
+																							want:       "\"//\"",
 																						},
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 53866},
-																				expr: &choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
-																							run: (*parser).callonExtraListElement605,
-																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 1663, col: 5, offset: 53868},
+																			expr: &seqExpr{
+																				pos: position{line: 1663, col: 6, offset: 53869},
+																				exprs: []interface{}{
+																					&notExpr{
+																						pos: position{line: 1663, col: 6, offset: 53869},
+																						expr: &actionExpr{
+																							pos: position{line: 1668, col: 5, offset: 54019},
+																							run: (*parser).callonExtraListElement614,
+																							expr: &seqExpr{
+																								pos: position{line: 1668, col: 5, offset: 54019},
+																								exprs: []interface{}{
+																									&labeledExpr{
+																										pos:   position{line: 1668, col: 5, offset: 54019},
+																										label: "separator",
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 16, offset: 54030},
+																											run: (*parser).callonExtraListElement617,
+																											expr: &oneOrMoreExpr{
+																												pos: position{line: 1668, col: 16, offset: 54030},
+																												expr: &litMatcher{
+																													pos:        position{line: 1668, col: 17, offset: 54031},
+																													val:        ":",
+																													ignoreCase: false,
+																													want:       "\":\"",
+																												},
+																											},
+																										},
 																									},
-																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																									&andCodeExpr{
+																										pos: position{line: 1671, col: 5, offset: 54088},
+																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
 																							},
 																						},
-																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
-																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																					},
+																					&notExpr{
+																						pos: position{line: 1663, col: 35, offset: 53898},
+																						expr: &choiceExpr{
+																							pos: position{line: 2897, col: 8, offset: 91332},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement623,
+																									expr: &choiceExpr{
+																										pos: position{line: 2884, col: 13, offset: 91106},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2894, col: 8, offset: 91282},
+																									expr: &anyMatcher{
+																										line: 2894, col: 9, offset: 91283,
+																									},
+																								},
 																							},
 																						},
 																					},
+																					&anyMatcher{
+																						line: 1663, col: 40, offset: 53903,
+																					},
 																				},
 																			},
-																			&anyMatcher{
-																				line: 1662, col: 40, offset: 53871,
-																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53987},
-																run: (*parser).callonExtraListElement613,
+																pos: position{line: 1668, col: 5, offset: 54019},
+																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53987},
+																	pos: position{line: 1668, col: 5, offset: 54019},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53987},
+																			pos:   position{line: 1668, col: 5, offset: 54019},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 53998},
-																				run: (*parser).callonExtraListElement616,
+																				pos: position{line: 1668, col: 16, offset: 54030},
+																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 53998},
+																					pos: position{line: 1668, col: 16, offset: 54030},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 53999},
+																						pos:        position{line: 1668, col: 17, offset: 54031},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28016,8 +28128,8 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54056},
-																			run: (*parser).callonExtraListElement619,
+																			pos: position{line: 1671, col: 5, offset: 54088},
+																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
 																},
@@ -28029,14 +28141,14 @@ var g = &grammar{
 													pos: position{line: 1511, col: 5, offset: 48988},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
-														run: (*parser).callonExtraListElement621,
+														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
 															pos: position{line: 724, col: 5, offset: 23042},
 															exprs: []interface{}{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2764, col: 13, offset: 87941},
+																		pos:        position{line: 2765, col: 13, offset: 88029},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28051,7 +28163,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 740, col: 5, offset: 23584},
-																				run: (*parser).callonExtraListElement627,
+																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
@@ -28060,7 +28172,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 16, offset: 23595},
-																								run: (*parser).callonExtraListElement630,
+																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 16, offset: 23595},
 																									exprs: []interface{}{
@@ -28086,10 +28198,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement636,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28098,28 +28210,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement639,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28128,9 +28240,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28140,7 +28252,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonExtraListElement646,
+																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -28149,7 +28261,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonExtraListElement649,
+																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -28175,10 +28287,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement655,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28187,28 +28299,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement658,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28217,9 +28329,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28229,7 +28341,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 760, col: 26, offset: 24320},
-																				run: (*parser).callonExtraListElement665,
+																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
 																					pos: position{line: 760, col: 26, offset: 24320},
 																					exprs: []interface{}{
@@ -28244,7 +28356,7 @@ var g = &grammar{
 																							label: "language",
 																							expr: &actionExpr{
 																								pos: position{line: 764, col: 13, offset: 24456},
-																								run: (*parser).callonExtraListElement669,
+																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 764, col: 14, offset: 24457},
 																									expr: &charClassMatcher{
@@ -28260,10 +28372,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement673,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28272,28 +28384,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement676,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28302,9 +28414,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28314,7 +28426,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonExtraListElement683,
+																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -28323,7 +28435,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonExtraListElement686,
+																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -28349,10 +28461,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement692,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28361,28 +28473,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement695,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28391,9 +28503,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28403,7 +28515,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonExtraListElement702,
+																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -28412,7 +28524,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonExtraListElement705,
+																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -28438,10 +28550,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement711,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28450,28 +28562,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement714,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28480,9 +28592,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28492,7 +28604,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonExtraListElement721,
+																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -28501,7 +28613,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonExtraListElement724,
+																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -28527,10 +28639,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement730,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28539,28 +28651,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement733,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28569,9 +28681,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28581,7 +28693,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonExtraListElement740,
+																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -28590,7 +28702,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonExtraListElement743,
+																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -28616,10 +28728,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement749,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28628,28 +28740,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement752,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28658,9 +28770,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28670,7 +28782,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonExtraListElement759,
+																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -28679,7 +28791,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonExtraListElement762,
+																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -28705,10 +28817,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement768,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28717,28 +28829,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement771,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28747,9 +28859,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28759,7 +28871,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonExtraListElement778,
+																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -28768,7 +28880,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonExtraListElement781,
+																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -28794,10 +28906,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonExtraListElement787,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28806,28 +28918,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonExtraListElement790,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28836,9 +28948,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -28857,12 +28969,12 @@ var g = &grammar{
 													pos:   position{line: 1512, col: 5, offset: 49008},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2824, col: 14, offset: 89439},
-														run: (*parser).callonExtraListElement798,
+														pos: position{line: 2825, col: 14, offset: 89527},
+														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2824, col: 14, offset: 89439},
+															pos: position{line: 2825, col: 14, offset: 89527},
 															expr: &charClassMatcher{
-																pos:        position{line: 2824, col: 14, offset: 89439},
+																pos:        position{line: 2825, col: 14, offset: 89527},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28872,28 +28984,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonExtraListElement802,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28902,9 +29014,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -28939,10 +29051,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1529, col: 13, offset: 49432},
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 10, offset: 90846},
+												pos: position{line: 2875, col: 10, offset: 90934},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2874, col: 10, offset: 90846},
+													pos:        position{line: 2875, col: 10, offset: 90934},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28951,25 +29063,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2883, col: 12, offset: 91017},
+											pos: position{line: 2884, col: 12, offset: 91105},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2883, col: 13, offset: 91018},
+												pos: position{line: 2884, col: 13, offset: 91106},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2883, col: 13, offset: 91018},
+														pos:        position{line: 2884, col: 13, offset: 91106},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2883, col: 20, offset: 91025},
+														pos:        position{line: 2884, col: 20, offset: 91113},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2883, col: 29, offset: 91034},
+														pos:        position{line: 2884, col: 29, offset: 91122},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28990,10 +29102,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1536, col: 31, offset: 49640},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29002,25 +29114,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2883, col: 12, offset: 91017},
+							pos: position{line: 2884, col: 12, offset: 91105},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2883, col: 13, offset: 91018},
+								pos: position{line: 2884, col: 13, offset: 91106},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2883, col: 13, offset: 91018},
+										pos:        position{line: 2884, col: 13, offset: 91106},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2883, col: 20, offset: 91025},
+										pos:        position{line: 2884, col: 20, offset: 91113},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2883, col: 29, offset: 91034},
+										pos:        position{line: 2884, col: 29, offset: 91122},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29053,9 +29165,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49727},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
@@ -29081,10 +29193,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50855},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29251,12 +29363,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29299,28 +29411,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29329,9 +29441,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -29361,10 +29473,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52817},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29405,12 +29517,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29482,12 +29594,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2878, col: 11, offset: 90907},
+																			pos: position{line: 2879, col: 11, offset: 90995},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 11, offset: 90907},
+																				pos:        position{line: 2879, col: 11, offset: 90995},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29531,28 +29643,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29561,9 +29673,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -29576,36 +29688,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1711, col: 5, offset: 55189},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1711, col: 5, offset: 55189},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1711, col: 5, offset: 55189},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1717, col: 5, offset: 55386},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1717, col: 5, offset: 55386},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1717, col: 5, offset: 55386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1717, col: 9, offset: 55390},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1717, col: 14, offset: 55395},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1717, col: 14, offset: 55395},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1717, col: 14, offset: 55395},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29615,18 +29727,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1717, col: 62, offset: 55443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29639,7 +29751,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1712, col: 5, offset: 55225},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1518, col: 5, offset: 49153},
@@ -29669,28 +29781,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29699,9 +29811,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -29725,88 +29837,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1662, col: 5, offset: 53836},
 														run: (*parser).callonListContinuationElement150,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1662, col: 5, offset: 53836},
-															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
-																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
-																			run: (*parser).callonListContinuationElement154,
-																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
-																							run: (*parser).callonListContinuationElement157,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
-																						run: (*parser).callonListContinuationElement160,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1662, col: 5, offset: 53836},
+																	expr: &seqExpr{
+																		pos: position{line: 2487, col: 31, offset: 80069},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2487, col: 31, offset: 80069},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2487, col: 36, offset: 80074},
+																				expr: &litMatcher{
+																					pos:        position{line: 2487, col: 37, offset: 80075},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
-																		expr: &choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListContinuationElement163,
-																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1663, col: 5, offset: 53868},
+																	expr: &seqExpr{
+																		pos: position{line: 1663, col: 6, offset: 53869},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1663, col: 6, offset: 53869},
+																				expr: &actionExpr{
+																					pos: position{line: 1668, col: 5, offset: 54019},
+																					run: (*parser).callonListContinuationElement160,
+																					expr: &seqExpr{
+																						pos: position{line: 1668, col: 5, offset: 54019},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1668, col: 5, offset: 54019},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1668, col: 16, offset: 54030},
+																									run: (*parser).callonListContinuationElement163,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1668, col: 16, offset: 54030},
+																										expr: &litMatcher{
+																											pos:        position{line: 1668, col: 17, offset: 54031},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1671, col: 5, offset: 54088},
+																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
-																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																			},
+																			&notExpr{
+																				pos: position{line: 1663, col: 35, offset: 53898},
+																				expr: &choiceExpr{
+																					pos: position{line: 2897, col: 8, offset: 91332},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2884, col: 12, offset: 91105},
+																							run: (*parser).callonListContinuationElement169,
+																							expr: &choiceExpr{
+																								pos: position{line: 2884, col: 13, offset: 91106},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2894, col: 8, offset: 91282},
+																							expr: &anyMatcher{
+																								line: 2894, col: 9, offset: 91283,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1663, col: 40, offset: 53903,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
-																	},
 																},
 															},
 														},
@@ -29816,21 +29956,21 @@ var g = &grammar{
 													pos:   position{line: 1655, col: 5, offset: 53545},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
-														run: (*parser).callonListContinuationElement172,
+														pos: position{line: 1668, col: 5, offset: 54019},
+														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1668, col: 5, offset: 54019},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1668, col: 5, offset: 54019},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
-																		run: (*parser).callonListContinuationElement175,
+																		pos: position{line: 1668, col: 16, offset: 54030},
+																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1668, col: 16, offset: 54030},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1668, col: 17, offset: 54031},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -29839,8 +29979,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
-																	run: (*parser).callonListContinuationElement178,
+																	pos: position{line: 1671, col: 5, offset: 54088},
+																	run: (*parser).callonListContinuationElement184,
 																},
 															},
 														},
@@ -29850,21 +29990,21 @@ var g = &grammar{
 													pos:   position{line: 1656, col: 5, offset: 53590},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1679, col: 5, offset: 54337},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
-																run: (*parser).callonListContinuationElement181,
+																pos: position{line: 1681, col: 9, offset: 54403},
+																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1681, col: 9, offset: 54403},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1681, col: 9, offset: 54403},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
-																				run: (*parser).callonListContinuationElement184,
+																				pos: position{line: 2875, col: 10, offset: 90934},
+																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29873,28 +30013,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListContinuationElement187,
+																					pos: position{line: 2884, col: 12, offset: 91105},
+																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29903,34 +30043,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1682, col: 9, offset: 54422},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
-																				run: (*parser).callonListContinuationElement195,
+																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2891, col: 11, offset: 91180},
+																							pos: position{line: 2892, col: 11, offset: 91268},
 																							expr: &anyMatcher{
-																								line: 2891, col: 13, offset: 91182,
+																								line: 2892, col: 13, offset: 91270,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement200,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29939,28 +30079,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement203,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29969,9 +30109,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -29984,18 +30124,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
-																run: (*parser).callonListContinuationElement210,
+																pos: position{line: 1688, col: 9, offset: 54551},
+																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1688, col: 9, offset: 54551},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2878, col: 11, offset: 90907},
-																			run: (*parser).callonListContinuationElement212,
+																			pos: position{line: 2879, col: 11, offset: 90995},
+																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 11, offset: 90907},
+																				pos: position{line: 2879, col: 11, offset: 90995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 11, offset: 90907},
+																					pos:        position{line: 2879, col: 11, offset: 90995},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30004,15 +30144,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1689, col: 9, offset: 54624},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
-																				run: (*parser).callonListContinuationElement216,
+																				pos: position{line: 1689, col: 18, offset: 54633},
+																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1689, col: 18, offset: 54633},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1689, col: 18, offset: 54633},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30022,28 +30162,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListContinuationElement220,
+																					pos: position{line: 2884, col: 12, offset: 91105},
+																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30052,9 +30192,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -30090,23 +30230,23 @@ var g = &grammar{
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
-										run: (*parser).callonListContinuationElement232,
+										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2891, col: 11, offset: 91180},
+													pos: position{line: 2892, col: 11, offset: 91268},
 													expr: &anyMatcher{
-														line: 2891, col: 13, offset: 91182,
+														line: 2892, col: 13, offset: 91270,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
-														run: (*parser).callonListContinuationElement237,
+														pos: position{line: 2875, col: 10, offset: 90934},
+														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30115,28 +30255,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement240,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30145,9 +30285,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -30161,7 +30301,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 360, col: 19, offset: 10910},
-										run: (*parser).callonListContinuationElement248,
+										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
 											pos: position{line: 360, col: 19, offset: 10910},
 											exprs: []interface{}{
@@ -30176,7 +30316,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
-														run: (*parser).callonListContinuationElement252,
+														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
 															exprs: []interface{}{
@@ -30212,10 +30352,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
-														run: (*parser).callonListContinuationElement259,
+														pos: position{line: 2875, col: 10, offset: 90934},
+														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30224,28 +30364,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement262,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30254,9 +30394,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -30266,7 +30406,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 362, col: 9, offset: 11031},
-										run: (*parser).callonListContinuationElement269,
+										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
 											pos: position{line: 362, col: 9, offset: 11031},
 											exprs: []interface{}{
@@ -30281,7 +30421,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
-														run: (*parser).callonListContinuationElement273,
+														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
 															exprs: []interface{}{
@@ -30317,10 +30457,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
-														run: (*parser).callonListContinuationElement280,
+														pos: position{line: 2875, col: 10, offset: 90934},
+														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30329,28 +30469,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement283,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30359,9 +30499,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -30371,13 +30511,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 820, col: 5, offset: 26324},
-										run: (*parser).callonListContinuationElement290,
+										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
 												&actionExpr{
 													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonListContinuationElement292,
+													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
 														exprs: []interface{}{
@@ -30386,7 +30526,7 @@ var g = &grammar{
 																label: "delimiter",
 																expr: &actionExpr{
 																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonListContinuationElement295,
+																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
 																		exprs: []interface{}{
@@ -30412,10 +30552,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23686},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
-																	run: (*parser).callonListContinuationElement301,
+																	pos: position{line: 2875, col: 10, offset: 90934},
+																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30424,28 +30564,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
-																		run: (*parser).callonListContinuationElement304,
+																		pos: position{line: 2884, col: 12, offset: 91105},
+																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30454,9 +30594,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -30471,7 +30611,7 @@ var g = &grammar{
 														pos: position{line: 831, col: 5, offset: 26641},
 														expr: &actionExpr{
 															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonListContinuationElement313,
+															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
 																pos: position{line: 831, col: 6, offset: 26642},
 																exprs: []interface{}{
@@ -30482,7 +30622,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonListContinuationElement317,
+																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
 																						pos: position{line: 740, col: 5, offset: 23584},
 																						exprs: []interface{}{
@@ -30491,7 +30631,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonListContinuationElement320,
+																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
 																										pos: position{line: 740, col: 16, offset: 23595},
 																										exprs: []interface{}{
@@ -30517,10 +30657,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
-																									run: (*parser).callonListContinuationElement326,
+																									pos: position{line: 2875, col: 10, offset: 90934},
+																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30529,28 +30669,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
-																										run: (*parser).callonListContinuationElement329,
+																										pos: position{line: 2884, col: 12, offset: 91105},
+																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30559,9 +30699,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -30570,9 +30710,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -30583,26 +30723,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement339,
+																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement344,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30612,28 +30752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement348,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30642,9 +30782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -30665,7 +30805,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonListContinuationElement357,
+																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
 																	pos: position{line: 740, col: 5, offset: 23584},
 																	exprs: []interface{}{
@@ -30674,7 +30814,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonListContinuationElement360,
+																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 16, offset: 23595},
 																					exprs: []interface{}{
@@ -30700,10 +30840,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
-																				run: (*parser).callonListContinuationElement366,
+																				pos: position{line: 2875, col: 10, offset: 90934},
+																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30712,28 +30852,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonListContinuationElement369,
+																					pos: position{line: 2884, col: 12, offset: 91105},
+																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30742,9 +30882,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -30753,9 +30893,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -30766,7 +30906,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 840, col: 5, offset: 26825},
-										run: (*parser).callonListContinuationElement378,
+										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
 											pos: position{line: 840, col: 5, offset: 26825},
 											exprs: []interface{}{
@@ -30775,7 +30915,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 747, col: 5, offset: 23832},
-														run: (*parser).callonListContinuationElement381,
+														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
 															exprs: []interface{}{
@@ -30784,7 +30924,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 747, col: 16, offset: 23843},
-																		run: (*parser).callonListContinuationElement384,
+																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
 																			pos: position{line: 747, col: 16, offset: 23843},
 																			exprs: []interface{}{
@@ -30810,10 +30950,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement390,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30822,28 +30962,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement393,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30852,9 +30992,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -30865,7 +31005,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 841, col: 5, offset: 26864},
-													run: (*parser).callonListContinuationElement400,
+													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
 													pos:   position{line: 844, col: 5, offset: 26956},
@@ -30874,7 +31014,7 @@ var g = &grammar{
 														pos: position{line: 859, col: 4, offset: 27353},
 														expr: &actionExpr{
 															pos: position{line: 859, col: 5, offset: 27354},
-															run: (*parser).callonListContinuationElement403,
+															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
 																pos: position{line: 859, col: 5, offset: 27354},
 																exprs: []interface{}{
@@ -30891,7 +31031,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement409,
+																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -30900,7 +31040,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement412,
+																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -30926,10 +31066,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement418,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30938,28 +31078,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement421,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30968,9 +31108,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -30981,14 +31121,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 853, col: 5, offset: 27227},
-																							run: (*parser).callonListContinuationElement428,
+																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -30999,26 +31139,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement432,
+																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement437,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31028,28 +31168,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement441,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31058,9 +31198,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -31090,7 +31230,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonListContinuationElement453,
+																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -31099,7 +31239,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonListContinuationElement456,
+																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -31125,10 +31265,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement462,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31137,28 +31277,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement465,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31167,9 +31307,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -31180,14 +31320,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 853, col: 5, offset: 27227},
-																			run: (*parser).callonListContinuationElement472,
+																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -31199,7 +31339,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 952, col: 5, offset: 29676},
-										run: (*parser).callonListContinuationElement475,
+										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
 											pos: position{line: 952, col: 5, offset: 29676},
 											exprs: []interface{}{
@@ -31208,7 +31348,7 @@ var g = &grammar{
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 760, col: 26, offset: 24320},
-														run: (*parser).callonListContinuationElement478,
+														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
 															exprs: []interface{}{
@@ -31223,7 +31363,7 @@ var g = &grammar{
 																	label: "language",
 																	expr: &actionExpr{
 																		pos: position{line: 764, col: 13, offset: 24456},
-																		run: (*parser).callonListContinuationElement482,
+																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 764, col: 14, offset: 24457},
 																			expr: &charClassMatcher{
@@ -31239,10 +31379,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement486,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31251,28 +31391,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement489,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31281,9 +31421,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -31299,7 +31439,7 @@ var g = &grammar{
 														pos: position{line: 966, col: 5, offset: 30195},
 														expr: &actionExpr{
 															pos: position{line: 966, col: 6, offset: 30196},
-															run: (*parser).callonListContinuationElement498,
+															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
 																pos: position{line: 966, col: 6, offset: 30196},
 																exprs: []interface{}{
@@ -31317,10 +31457,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30149},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
-																						run: (*parser).callonListContinuationElement504,
+																						pos: position{line: 2875, col: 10, offset: 90934},
+																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31329,28 +31469,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
-																							run: (*parser).callonListContinuationElement507,
+																							pos: position{line: 2884, col: 12, offset: 91105},
+																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31359,9 +31499,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -31374,26 +31514,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement515,
+																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement520,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31403,28 +31543,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement524,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31433,9 +31573,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -31463,10 +31603,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30149},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
-																	run: (*parser).callonListContinuationElement535,
+																	pos: position{line: 2875, col: 10, offset: 90934},
+																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31475,28 +31615,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
-																		run: (*parser).callonListContinuationElement538,
+																		pos: position{line: 2884, col: 12, offset: 91105},
+																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31505,9 +31645,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -31520,7 +31660,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 868, col: 5, offset: 27537},
-										run: (*parser).callonListContinuationElement545,
+										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
 											pos: position{line: 868, col: 5, offset: 27537},
 											exprs: []interface{}{
@@ -31529,7 +31669,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 754, col: 5, offset: 24079},
-														run: (*parser).callonListContinuationElement548,
+														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
 															exprs: []interface{}{
@@ -31538,7 +31678,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 754, col: 16, offset: 24090},
-																		run: (*parser).callonListContinuationElement551,
+																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
 																			pos: position{line: 754, col: 16, offset: 24090},
 																			exprs: []interface{}{
@@ -31564,10 +31704,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement557,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31576,28 +31716,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement560,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31606,9 +31746,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -31619,7 +31759,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 869, col: 5, offset: 27575},
-													run: (*parser).callonListContinuationElement567,
+													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
 													pos:   position{line: 872, col: 5, offset: 27667},
@@ -31628,7 +31768,7 @@ var g = &grammar{
 														pos: position{line: 887, col: 5, offset: 28057},
 														expr: &actionExpr{
 															pos: position{line: 887, col: 6, offset: 28058},
-															run: (*parser).callonListContinuationElement570,
+															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
 																pos: position{line: 887, col: 6, offset: 28058},
 																exprs: []interface{}{
@@ -31645,7 +31785,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement576,
+																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -31654,7 +31794,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement579,
+																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -31680,10 +31820,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement585,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31692,28 +31832,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement588,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31722,9 +31862,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -31735,14 +31875,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 881, col: 5, offset: 27931},
-																							run: (*parser).callonListContinuationElement595,
+																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -31753,26 +31893,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement599,
+																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement604,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31782,28 +31922,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement608,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31812,9 +31952,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -31844,7 +31984,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonListContinuationElement620,
+																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -31853,7 +31993,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonListContinuationElement623,
+																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -31879,10 +32019,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement629,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31891,28 +32031,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement632,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31921,9 +32061,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -31934,14 +32074,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 881, col: 5, offset: 27931},
-																			run: (*parser).callonListContinuationElement639,
+																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -31953,7 +32093,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 896, col: 5, offset: 28242},
-										run: (*parser).callonListContinuationElement642,
+										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
 											pos: position{line: 896, col: 5, offset: 28242},
 											exprs: []interface{}{
@@ -31962,7 +32102,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 769, col: 5, offset: 24616},
-														run: (*parser).callonListContinuationElement645,
+														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
 															pos: position{line: 769, col: 5, offset: 24616},
 															exprs: []interface{}{
@@ -31971,7 +32111,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 769, col: 16, offset: 24627},
-																		run: (*parser).callonListContinuationElement648,
+																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
 																			pos: position{line: 769, col: 16, offset: 24627},
 																			exprs: []interface{}{
@@ -31997,10 +32137,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement654,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32009,28 +32149,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement657,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32039,9 +32179,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -32052,7 +32192,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 897, col: 5, offset: 28281},
-													run: (*parser).callonListContinuationElement664,
+													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
 													pos:   position{line: 900, col: 5, offset: 28373},
@@ -32061,7 +32201,7 @@ var g = &grammar{
 														pos: position{line: 915, col: 5, offset: 28771},
 														expr: &actionExpr{
 															pos: position{line: 915, col: 6, offset: 28772},
-															run: (*parser).callonListContinuationElement667,
+															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
 																pos: position{line: 915, col: 6, offset: 28772},
 																exprs: []interface{}{
@@ -32078,7 +32218,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement673,
+																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -32087,7 +32227,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement676,
+																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -32113,10 +32253,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement682,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32125,28 +32265,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement685,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32155,9 +32295,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -32168,14 +32308,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 909, col: 5, offset: 28644},
-																							run: (*parser).callonListContinuationElement692,
+																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -32186,26 +32326,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement696,
+																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement701,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32215,28 +32355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement705,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32245,9 +32385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -32277,7 +32417,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonListContinuationElement717,
+																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -32286,7 +32426,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonListContinuationElement720,
+																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -32312,10 +32452,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement726,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32324,28 +32464,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement729,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32354,9 +32494,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -32367,14 +32507,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 909, col: 5, offset: 28644},
-																			run: (*parser).callonListContinuationElement736,
+																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -32386,7 +32526,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 924, col: 5, offset: 28957},
-										run: (*parser).callonListContinuationElement739,
+										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
 											pos: position{line: 924, col: 5, offset: 28957},
 											exprs: []interface{}{
@@ -32395,7 +32535,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 783, col: 5, offset: 25092},
-														run: (*parser).callonListContinuationElement742,
+														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
 															pos: position{line: 783, col: 5, offset: 25092},
 															exprs: []interface{}{
@@ -32404,7 +32544,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 783, col: 16, offset: 25103},
-																		run: (*parser).callonListContinuationElement745,
+																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
 																			pos: position{line: 783, col: 16, offset: 25103},
 																			exprs: []interface{}{
@@ -32430,10 +32570,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement751,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32442,28 +32582,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement754,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32472,9 +32612,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -32485,7 +32625,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 925, col: 5, offset: 28996},
-													run: (*parser).callonListContinuationElement761,
+													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
 													pos:   position{line: 928, col: 5, offset: 29088},
@@ -32494,7 +32634,7 @@ var g = &grammar{
 														pos: position{line: 943, col: 5, offset: 29486},
 														expr: &actionExpr{
 															pos: position{line: 943, col: 6, offset: 29487},
-															run: (*parser).callonListContinuationElement764,
+															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
 																pos: position{line: 943, col: 6, offset: 29487},
 																exprs: []interface{}{
@@ -32511,7 +32651,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement770,
+																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -32520,7 +32660,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement773,
+																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -32546,10 +32686,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement779,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32558,28 +32698,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement782,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32588,9 +32728,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -32601,14 +32741,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 937, col: 5, offset: 29359},
-																							run: (*parser).callonListContinuationElement789,
+																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -32619,26 +32759,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement793,
+																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement798,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32648,28 +32788,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement802,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32678,9 +32818,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -32710,7 +32850,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonListContinuationElement814,
+																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -32719,7 +32859,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonListContinuationElement817,
+																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -32745,10 +32885,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement823,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32757,28 +32897,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement826,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32787,9 +32927,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -32800,14 +32940,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 937, col: 5, offset: 29359},
-																			run: (*parser).callonListContinuationElement833,
+																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -32819,7 +32959,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 975, col: 5, offset: 30400},
-										run: (*parser).callonListContinuationElement836,
+										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
 											pos: position{line: 975, col: 5, offset: 30400},
 											exprs: []interface{}{
@@ -32828,7 +32968,7 @@ var g = &grammar{
 													label: "firstLine",
 													expr: &actionExpr{
 														pos: position{line: 982, col: 5, offset: 30659},
-														run: (*parser).callonListContinuationElement839,
+														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
 															pos: position{line: 982, col: 5, offset: 30659},
 															exprs: []interface{}{
@@ -32836,23 +32976,23 @@ var g = &grammar{
 																	pos: position{line: 982, col: 5, offset: 30659},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement842,
+																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2891, col: 11, offset: 91180},
+																					pos: position{line: 2892, col: 11, offset: 91268},
 																					expr: &anyMatcher{
-																						line: 2891, col: 13, offset: 91182,
+																						line: 2892, col: 13, offset: 91270,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
-																						run: (*parser).callonListContinuationElement847,
+																						pos: position{line: 2875, col: 10, offset: 90934},
+																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32861,28 +33001,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
-																							run: (*parser).callonListContinuationElement850,
+																							pos: position{line: 2884, col: 12, offset: 91105},
+																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32891,9 +33031,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -32912,12 +33052,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30684},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2824, col: 14, offset: 89439},
-																		run: (*parser).callonListContinuationElement859,
+																		pos: position{line: 2825, col: 14, offset: 89527},
+																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2824, col: 14, offset: 89439},
+																			pos: position{line: 2825, col: 14, offset: 89527},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2824, col: 14, offset: 89439},
+																				pos:        position{line: 2825, col: 14, offset: 89527},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32927,28 +33067,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement863,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32957,9 +33097,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -32978,7 +33118,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 982, col: 5, offset: 30659},
-																	run: (*parser).callonListContinuationElement873,
+																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
 																		pos: position{line: 982, col: 5, offset: 30659},
 																		exprs: []interface{}{
@@ -32986,23 +33126,23 @@ var g = &grammar{
 																				pos: position{line: 982, col: 5, offset: 30659},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
-																					run: (*parser).callonListContinuationElement876,
+																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2891, col: 11, offset: 91180},
+																								pos: position{line: 2892, col: 11, offset: 91268},
 																								expr: &anyMatcher{
-																									line: 2891, col: 13, offset: 91182,
+																									line: 2892, col: 13, offset: 91270,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
-																									run: (*parser).callonListContinuationElement881,
+																									pos: position{line: 2875, col: 10, offset: 90934},
+																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33011,28 +33151,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
-																										run: (*parser).callonListContinuationElement884,
+																										pos: position{line: 2884, col: 12, offset: 91105},
+																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33041,9 +33181,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -33062,12 +33202,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30684},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2824, col: 14, offset: 89439},
-																					run: (*parser).callonListContinuationElement893,
+																					pos: position{line: 2825, col: 14, offset: 89527},
+																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2824, col: 14, offset: 89439},
+																						pos: position{line: 2825, col: 14, offset: 89527},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2824, col: 14, offset: 89439},
+																							pos:        position{line: 2825, col: 14, offset: 89527},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33077,28 +33217,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2896, col: 8, offset: 91244},
+																				pos: position{line: 2897, col: 8, offset: 91332},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2883, col: 12, offset: 91017},
-																						run: (*parser).callonListContinuationElement897,
+																						pos: position{line: 2884, col: 12, offset: 91105},
+																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2883, col: 13, offset: 91018},
+																							pos: position{line: 2884, col: 13, offset: 91106},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 13, offset: 91018},
+																									pos:        position{line: 2884, col: 13, offset: 91106},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 20, offset: 91025},
+																									pos:        position{line: 2884, col: 20, offset: 91113},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 29, offset: 91034},
+																									pos:        position{line: 2884, col: 29, offset: 91122},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33107,9 +33247,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -33118,21 +33258,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1785, col: 5, offset: 57667},
-																	run: (*parser).callonListContinuationElement904,
+																	pos: position{line: 1786, col: 5, offset: 57699},
+																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1785, col: 5, offset: 57667},
+																		pos: position{line: 1786, col: 5, offset: 57699},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1785, col: 5, offset: 57667},
+																				pos:   position{line: 1786, col: 5, offset: 57699},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2824, col: 14, offset: 89439},
-																					run: (*parser).callonListContinuationElement907,
+																					pos: position{line: 2825, col: 14, offset: 89527},
+																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2824, col: 14, offset: 89439},
+																						pos: position{line: 2825, col: 14, offset: 89527},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2824, col: 14, offset: 89439},
+																							pos:        position{line: 2825, col: 14, offset: 89527},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33142,32 +33282,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1786, col: 5, offset: 57691},
-																				run: (*parser).callonListContinuationElement910,
+																				pos: position{line: 1787, col: 5, offset: 57723},
+																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2896, col: 8, offset: 91244},
+																				pos: position{line: 2897, col: 8, offset: 91332},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2883, col: 12, offset: 91017},
-																						run: (*parser).callonListContinuationElement912,
+																						pos: position{line: 2884, col: 12, offset: 91105},
+																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2883, col: 13, offset: 91018},
+																							pos: position{line: 2884, col: 13, offset: 91106},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 13, offset: 91018},
+																									pos:        position{line: 2884, col: 13, offset: 91106},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 20, offset: 91025},
+																									pos:        position{line: 2884, col: 20, offset: 91113},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 29, offset: 91034},
+																									pos:        position{line: 2884, col: 29, offset: 91122},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33176,9 +33316,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -33195,7 +33335,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 997, col: 5, offset: 30949},
-										run: (*parser).callonListContinuationElement919,
+										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
 											pos: position{line: 997, col: 5, offset: 30949},
 											exprs: []interface{}{
@@ -33204,7 +33344,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 776, col: 5, offset: 24861},
-														run: (*parser).callonListContinuationElement922,
+														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
 															exprs: []interface{}{
@@ -33213,7 +33353,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 776, col: 16, offset: 24872},
-																		run: (*parser).callonListContinuationElement925,
+																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
 																			pos:        position{line: 776, col: 16, offset: 24872},
 																			val:        "--",
@@ -33225,10 +33365,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement928,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33237,28 +33377,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement931,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33267,9 +33407,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -33285,7 +33425,7 @@ var g = &grammar{
 														pos: position{line: 1008, col: 5, offset: 31253},
 														expr: &actionExpr{
 															pos: position{line: 1008, col: 6, offset: 31254},
-															run: (*parser).callonListContinuationElement940,
+															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
 																pos: position{line: 1008, col: 6, offset: 31254},
 																exprs: []interface{}{
@@ -33296,7 +33436,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 776, col: 5, offset: 24861},
-																					run: (*parser).callonListContinuationElement944,
+																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
 																						exprs: []interface{}{
@@ -33305,7 +33445,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 776, col: 16, offset: 24872},
-																									run: (*parser).callonListContinuationElement947,
+																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
 																										pos:        position{line: 776, col: 16, offset: 24872},
 																										val:        "--",
@@ -33317,10 +33457,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2874, col: 10, offset: 90846},
-																									run: (*parser).callonListContinuationElement950,
+																									pos: position{line: 2875, col: 10, offset: 90934},
+																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 10, offset: 90846},
+																										pos:        position{line: 2875, col: 10, offset: 90934},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33329,28 +33469,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2896, col: 8, offset: 91244},
+																								pos: position{line: 2897, col: 8, offset: 91332},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2883, col: 12, offset: 91017},
-																										run: (*parser).callonListContinuationElement953,
+																										pos: position{line: 2884, col: 12, offset: 91105},
+																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2883, col: 13, offset: 91018},
+																											pos: position{line: 2884, col: 13, offset: 91106},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 13, offset: 91018},
+																													pos:        position{line: 2884, col: 13, offset: 91106},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 20, offset: 91025},
+																													pos:        position{line: 2884, col: 20, offset: 91113},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2883, col: 29, offset: 91034},
+																													pos:        position{line: 2884, col: 29, offset: 91122},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33359,9 +33499,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2893, col: 8, offset: 91194},
+																										pos: position{line: 2894, col: 8, offset: 91282},
 																										expr: &anyMatcher{
-																											line: 2893, col: 9, offset: 91195,
+																											line: 2894, col: 9, offset: 91283,
 																										},
 																									},
 																								},
@@ -33370,9 +33510,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -33383,26 +33523,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement963,
+																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement968,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33412,28 +33552,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement972,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33442,9 +33582,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -33468,7 +33608,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 776, col: 5, offset: 24861},
-																	run: (*parser).callonListContinuationElement982,
+																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
 																		exprs: []interface{}{
@@ -33477,7 +33617,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 776, col: 16, offset: 24872},
-																					run: (*parser).callonListContinuationElement985,
+																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
 																						pos:        position{line: 776, col: 16, offset: 24872},
 																						val:        "--",
@@ -33489,10 +33629,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
-																					run: (*parser).callonListContinuationElement988,
+																					pos: position{line: 2875, col: 10, offset: 90934},
+																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33501,28 +33641,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2896, col: 8, offset: 91244},
+																				pos: position{line: 2897, col: 8, offset: 91332},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2883, col: 12, offset: 91017},
-																						run: (*parser).callonListContinuationElement991,
+																						pos: position{line: 2884, col: 12, offset: 91105},
+																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2883, col: 13, offset: 91018},
+																							pos: position{line: 2884, col: 13, offset: 91106},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 13, offset: 91018},
+																									pos:        position{line: 2884, col: 13, offset: 91106},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 20, offset: 91025},
+																									pos:        position{line: 2884, col: 20, offset: 91113},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 29, offset: 91034},
+																									pos:        position{line: 2884, col: 29, offset: 91122},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33531,9 +33671,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -33542,9 +33682,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -33556,7 +33696,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1017, col: 5, offset: 31444},
-										run: (*parser).callonListContinuationElement1000,
+										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
 											pos: position{line: 1017, col: 5, offset: 31444},
 											exprs: []interface{}{
@@ -33565,7 +33705,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 790, col: 5, offset: 25344},
-														run: (*parser).callonListContinuationElement1003,
+														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
 															exprs: []interface{}{
@@ -33574,7 +33714,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 790, col: 16, offset: 25355},
-																		run: (*parser).callonListContinuationElement1006,
+																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
 																			exprs: []interface{}{
@@ -33600,10 +33740,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement1012,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33612,28 +33752,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement1015,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33642,9 +33782,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -33655,7 +33795,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1018, col: 5, offset: 31487},
-													run: (*parser).callonListContinuationElement1022,
+													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
 													pos:   position{line: 1021, col: 5, offset: 31579},
@@ -33664,7 +33804,7 @@ var g = &grammar{
 														pos: position{line: 1036, col: 5, offset: 32009},
 														expr: &actionExpr{
 															pos: position{line: 1036, col: 6, offset: 32010},
-															run: (*parser).callonListContinuationElement1025,
+															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
 																pos: position{line: 1036, col: 6, offset: 32010},
 																exprs: []interface{}{
@@ -33681,7 +33821,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1031,
+																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -33690,7 +33830,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1034,
+																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -33716,10 +33856,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1040,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33728,28 +33868,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1043,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33758,9 +33898,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -33771,14 +33911,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1030, col: 5, offset: 31878},
-																							run: (*parser).callonListContinuationElement1050,
+																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -33789,26 +33929,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1054,
+																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement1059,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33818,28 +33958,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement1063,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33848,9 +33988,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -33880,7 +34020,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonListContinuationElement1075,
+																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -33889,7 +34029,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonListContinuationElement1078,
+																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -33915,10 +34055,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement1084,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33927,28 +34067,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement1087,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33957,9 +34097,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -33970,14 +34110,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1030, col: 5, offset: 31878},
-																			run: (*parser).callonListContinuationElement1094,
+																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -33989,7 +34129,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1045, col: 5, offset: 32195},
-										run: (*parser).callonListContinuationElement1097,
+										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
 											pos: position{line: 1045, col: 5, offset: 32195},
 											exprs: []interface{}{
@@ -33998,7 +34138,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 797, col: 5, offset: 25594},
-														run: (*parser).callonListContinuationElement1100,
+														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
 															exprs: []interface{}{
@@ -34007,7 +34147,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 797, col: 16, offset: 25605},
-																		run: (*parser).callonListContinuationElement1103,
+																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
 																			exprs: []interface{}{
@@ -34033,10 +34173,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement1109,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34045,28 +34185,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement1112,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34075,9 +34215,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -34088,7 +34228,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1046, col: 5, offset: 32232},
-													run: (*parser).callonListContinuationElement1119,
+													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
 													pos:   position{line: 1049, col: 5, offset: 32324},
@@ -34097,7 +34237,7 @@ var g = &grammar{
 														pos: position{line: 1064, col: 4, offset: 32705},
 														expr: &actionExpr{
 															pos: position{line: 1064, col: 5, offset: 32706},
-															run: (*parser).callonListContinuationElement1122,
+															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
 																pos: position{line: 1064, col: 5, offset: 32706},
 																exprs: []interface{}{
@@ -34114,7 +34254,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1128,
+																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -34123,7 +34263,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1131,
+																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -34149,10 +34289,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1137,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34161,28 +34301,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1140,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34191,9 +34331,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -34204,14 +34344,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1058, col: 5, offset: 32581},
-																							run: (*parser).callonListContinuationElement1147,
+																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -34222,26 +34362,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1151,
+																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement1156,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34251,28 +34391,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement1160,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34281,9 +34421,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -34313,7 +34453,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonListContinuationElement1172,
+																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -34322,7 +34462,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonListContinuationElement1175,
+																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -34348,10 +34488,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement1181,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34360,28 +34500,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement1184,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34390,9 +34530,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -34403,14 +34543,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1058, col: 5, offset: 32581},
-																			run: (*parser).callonListContinuationElement1191,
+																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -34422,7 +34562,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1073, col: 5, offset: 32889},
-										run: (*parser).callonListContinuationElement1194,
+										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
 											pos: position{line: 1073, col: 5, offset: 32889},
 											exprs: []interface{}{
@@ -34431,7 +34571,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 804, col: 5, offset: 25840},
-														run: (*parser).callonListContinuationElement1197,
+														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
 															exprs: []interface{}{
@@ -34440,7 +34580,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 804, col: 16, offset: 25851},
-																		run: (*parser).callonListContinuationElement1200,
+																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
 																			exprs: []interface{}{
@@ -34466,10 +34606,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement1206,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34478,28 +34618,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement1209,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34508,9 +34648,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -34521,7 +34661,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1074, col: 5, offset: 32928},
-													run: (*parser).callonListContinuationElement1216,
+													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
 													pos:   position{line: 1077, col: 5, offset: 33020},
@@ -34530,7 +34670,7 @@ var g = &grammar{
 														pos: position{line: 1092, col: 4, offset: 33417},
 														expr: &actionExpr{
 															pos: position{line: 1092, col: 5, offset: 33418},
-															run: (*parser).callonListContinuationElement1219,
+															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
 																pos: position{line: 1092, col: 5, offset: 33418},
 																exprs: []interface{}{
@@ -34547,7 +34687,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1225,
+																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -34556,7 +34696,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1228,
+																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -34582,10 +34722,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1234,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34594,28 +34734,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1237,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34624,9 +34764,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -34637,14 +34777,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1086, col: 5, offset: 33291},
-																							run: (*parser).callonListContinuationElement1244,
+																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -34655,26 +34795,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1248,
+																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2891, col: 11, offset: 91180},
+																						pos: position{line: 2892, col: 11, offset: 91268},
 																						expr: &anyMatcher{
-																							line: 2891, col: 13, offset: 91182,
+																							line: 2892, col: 13, offset: 91270,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2820, col: 13, offset: 89372},
-																							run: (*parser).callonListContinuationElement1253,
+																							pos: position{line: 2821, col: 13, offset: 89460},
+																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2820, col: 13, offset: 89372},
+																								pos: position{line: 2821, col: 13, offset: 89460},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2820, col: 13, offset: 89372},
+																									pos:        position{line: 2821, col: 13, offset: 89460},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34684,28 +34824,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
-																								run: (*parser).callonListContinuationElement1257,
+																								pos: position{line: 2884, col: 12, offset: 91105},
+																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34714,9 +34854,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -34746,7 +34886,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonListContinuationElement1269,
+																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -34755,7 +34895,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonListContinuationElement1272,
+																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -34781,10 +34921,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 10, offset: 90846},
-																								run: (*parser).callonListContinuationElement1278,
+																								pos: position{line: 2875, col: 10, offset: 90934},
+																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 10, offset: 90846},
+																									pos:        position{line: 2875, col: 10, offset: 90934},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34793,28 +34933,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2896, col: 8, offset: 91244},
+																							pos: position{line: 2897, col: 8, offset: 91332},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2883, col: 12, offset: 91017},
-																									run: (*parser).callonListContinuationElement1281,
+																									pos: position{line: 2884, col: 12, offset: 91105},
+																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2883, col: 13, offset: 91018},
+																										pos: position{line: 2884, col: 13, offset: 91106},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 13, offset: 91018},
+																												pos:        position{line: 2884, col: 13, offset: 91106},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 20, offset: 91025},
+																												pos:        position{line: 2884, col: 20, offset: 91113},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2883, col: 29, offset: 91034},
+																												pos:        position{line: 2884, col: 29, offset: 91122},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34823,9 +34963,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2893, col: 8, offset: 91194},
+																									pos: position{line: 2894, col: 8, offset: 91282},
 																									expr: &anyMatcher{
-																										line: 2893, col: 9, offset: 91195,
+																										line: 2894, col: 9, offset: 91283,
 																									},
 																								},
 																							},
@@ -34836,14 +34976,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1086, col: 5, offset: 33291},
-																			run: (*parser).callonListContinuationElement1288,
+																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -34854,52 +34994,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2719, col: 18, offset: 86436},
-										run: (*parser).callonListContinuationElement1291,
+										pos: position{line: 2720, col: 18, offset: 86524},
+										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2719, col: 18, offset: 86436},
+											pos: position{line: 2720, col: 18, offset: 86524},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2720, col: 9, offset: 86446},
+													pos: position{line: 2721, col: 9, offset: 86534},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2720, col: 9, offset: 86446},
+															pos:        position{line: 2721, col: 9, offset: 86534},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2721, col: 11, offset: 86482},
+															pos:        position{line: 2722, col: 11, offset: 86570},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2721, col: 19, offset: 86490},
+															pos:        position{line: 2722, col: 19, offset: 86578},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2721, col: 29, offset: 86500},
+															pos:        position{line: 2722, col: 29, offset: 86588},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2721, col: 37, offset: 86508},
+															pos:        position{line: 2722, col: 37, offset: 86596},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2721, col: 47, offset: 86518},
+															pos:        position{line: 2722, col: 47, offset: 86606},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2721, col: 55, offset: 86526},
+															pos:        position{line: 2722, col: 55, offset: 86614},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34907,12 +35047,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2722, col: 11, offset: 86584},
+													pos: position{line: 2723, col: 11, offset: 86672},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
-														run: (*parser).callonListContinuationElement1302,
+														pos: position{line: 2875, col: 10, offset: 90934},
+														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34921,28 +35061,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement1305,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34951,36 +35091,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement1313,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34989,9 +35129,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -35004,24 +35144,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2610, col: 5, offset: 83372},
-										run: (*parser).callonListContinuationElement1321,
+										pos: position{line: 2611, col: 5, offset: 83460},
+										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2610, col: 5, offset: 83372},
+											pos: position{line: 2611, col: 5, offset: 83460},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2616, col: 19, offset: 83529},
+													pos:        position{line: 2617, col: 19, offset: 83617},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2616, col: 26, offset: 83536},
+													pos: position{line: 2617, col: 26, offset: 83624},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
-														run: (*parser).callonListContinuationElement1325,
+														pos: position{line: 2875, col: 10, offset: 90934},
+														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35030,28 +35170,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement1328,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35060,40 +35200,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2611, col: 5, offset: 83396},
+													pos:   position{line: 2612, col: 5, offset: 83484},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2611, col: 11, offset: 83402},
+														pos: position{line: 2612, col: 11, offset: 83490},
 														expr: &choiceExpr{
-															pos: position{line: 2611, col: 12, offset: 83403},
+															pos: position{line: 2612, col: 12, offset: 83491},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1338,
+																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2891, col: 11, offset: 91180},
+																				pos: position{line: 2892, col: 11, offset: 91268},
 																				expr: &anyMatcher{
-																					line: 2891, col: 13, offset: 91182,
+																					line: 2892, col: 13, offset: 91270,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
-																					run: (*parser).callonListContinuationElement1343,
+																					pos: position{line: 2875, col: 10, offset: 90934},
+																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35102,28 +35242,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2896, col: 8, offset: 91244},
+																				pos: position{line: 2897, col: 8, offset: 91332},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2883, col: 12, offset: 91017},
-																						run: (*parser).callonListContinuationElement1346,
+																						pos: position{line: 2884, col: 12, offset: 91105},
+																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2883, col: 13, offset: 91018},
+																							pos: position{line: 2884, col: 13, offset: 91106},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 13, offset: 91018},
+																									pos:        position{line: 2884, col: 13, offset: 91106},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 20, offset: 91025},
+																									pos:        position{line: 2884, col: 20, offset: 91113},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2883, col: 29, offset: 91034},
+																									pos:        position{line: 2884, col: 29, offset: 91122},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35132,9 +35272,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2893, col: 8, offset: 91194},
+																						pos: position{line: 2894, col: 8, offset: 91282},
 																						expr: &anyMatcher{
-																							line: 2893, col: 9, offset: 91195,
+																							line: 2894, col: 9, offset: 91283,
 																						},
 																					},
 																				},
@@ -35143,32 +35283,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2623, col: 5, offset: 83648},
-																	run: (*parser).callonListContinuationElement1353,
+																	pos: position{line: 2624, col: 5, offset: 83736},
+																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2623, col: 5, offset: 83648},
+																		pos: position{line: 2624, col: 5, offset: 83736},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2623, col: 5, offset: 83648},
+																				pos: position{line: 2624, col: 5, offset: 83736},
 																				expr: &choiceExpr{
-																					pos: position{line: 2620, col: 22, offset: 83609},
+																					pos: position{line: 2621, col: 22, offset: 83697},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2616, col: 19, offset: 83529},
+																							pos: position{line: 2617, col: 19, offset: 83617},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2616, col: 19, offset: 83529},
+																									pos:        position{line: 2617, col: 19, offset: 83617},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2616, col: 26, offset: 83536},
+																									pos: position{line: 2617, col: 26, offset: 83624},
 																									expr: &actionExpr{
-																										pos: position{line: 2874, col: 10, offset: 90846},
-																										run: (*parser).callonListContinuationElement1360,
+																										pos: position{line: 2875, col: 10, offset: 90934},
+																										run: (*parser).callonListContinuationElement1366,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2874, col: 10, offset: 90846},
+																											pos:        position{line: 2875, col: 10, offset: 90934},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35177,28 +35317,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
+																									pos: position{line: 2897, col: 8, offset: 91332},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonListContinuationElement1363,
+																											pos: position{line: 2884, col: 12, offset: 91105},
+																											run: (*parser).callonListContinuationElement1369,
 																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
+																												pos: position{line: 2884, col: 13, offset: 91106},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
+																														pos:        position{line: 2884, col: 13, offset: 91106},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
+																														pos:        position{line: 2884, col: 20, offset: 91113},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
+																														pos:        position{line: 2884, col: 29, offset: 91122},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35207,9 +35347,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
+																											pos: position{line: 2894, col: 8, offset: 91282},
 																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																												line: 2894, col: 9, offset: 91283,
 																											},
 																										},
 																									},
@@ -35217,59 +35357,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2624, col: 5, offset: 83671},
+																				pos:   position{line: 2625, col: 5, offset: 83759},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2625, col: 9, offset: 83689},
+																					pos: position{line: 2626, col: 9, offset: 83777},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2625, col: 10, offset: 83690},
-																							run: (*parser).callonListContinuationElement1374,
+																							pos: position{line: 2626, col: 10, offset: 83778},
+																							run: (*parser).callonListContinuationElement1380,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2625, col: 10, offset: 83690},
+																								pos:   position{line: 2626, col: 10, offset: 83778},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2625, col: 17, offset: 83697},
+																									pos: position{line: 2626, col: 17, offset: 83785},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2633, col: 21, offset: 83893},
-																											run: (*parser).callonListContinuationElement1377,
+																											pos: position{line: 2634, col: 21, offset: 83981},
+																											run: (*parser).callonListContinuationElement1383,
 																											expr: &seqExpr{
-																												pos: position{line: 2633, col: 21, offset: 83893},
+																												pos: position{line: 2634, col: 21, offset: 83981},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2633, col: 21, offset: 83893},
+																														pos:   position{line: 2634, col: 21, offset: 83981},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2633, col: 27, offset: 83899},
+																															pos: position{line: 2634, col: 27, offset: 83987},
 																															expr: &actionExpr{
-																																pos: position{line: 2638, col: 5, offset: 83974},
-																																run: (*parser).callonListContinuationElement1381,
+																																pos: position{line: 2639, col: 5, offset: 84062},
+																																run: (*parser).callonListContinuationElement1387,
 																																expr: &seqExpr{
-																																	pos: position{line: 2638, col: 5, offset: 83974},
+																																	pos: position{line: 2639, col: 5, offset: 84062},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2638, col: 5, offset: 83974},
+																																			pos:        position{line: 2639, col: 5, offset: 84062},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2638, col: 9, offset: 83978},
+																																			pos: position{line: 2639, col: 9, offset: 84066},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2874, col: 10, offset: 90846},
-																																				run: (*parser).callonListContinuationElement1385,
+																																				pos: position{line: 2875, col: 10, offset: 90934},
+																																				run: (*parser).callonListContinuationElement1391,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2874, col: 10, offset: 90846},
+																																					pos:        position{line: 2875, col: 10, offset: 90934},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35278,21 +35418,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2638, col: 16, offset: 83985},
+																																			pos:   position{line: 2639, col: 16, offset: 84073},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2644, col: 5, offset: 84185},
-																																				run: (*parser).callonListContinuationElement1388,
+																																				pos: position{line: 2645, col: 5, offset: 84273},
+																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2644, col: 5, offset: 84185},
+																																					pos:   position{line: 2645, col: 5, offset: 84273},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2644, col: 14, offset: 84194},
-																																						run: (*parser).callonListContinuationElement1390,
+																																						pos: position{line: 2645, col: 14, offset: 84282},
+																																						run: (*parser).callonListContinuationElement1396,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2644, col: 14, offset: 84194},
+																																							pos: position{line: 2645, col: 14, offset: 84282},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2644, col: 14, offset: 84194},
+																																								pos:        position{line: 2645, col: 14, offset: 84282},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35309,28 +35449,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2896, col: 8, offset: 91244},
+																														pos: position{line: 2897, col: 8, offset: 91332},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2883, col: 12, offset: 91017},
-																																run: (*parser).callonListContinuationElement1394,
+																																pos: position{line: 2884, col: 12, offset: 91105},
+																																run: (*parser).callonListContinuationElement1400,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2883, col: 13, offset: 91018},
+																																	pos: position{line: 2884, col: 13, offset: 91106},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2883, col: 13, offset: 91018},
+																																			pos:        position{line: 2884, col: 13, offset: 91106},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2883, col: 20, offset: 91025},
+																																			pos:        position{line: 2884, col: 20, offset: 91113},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2883, col: 29, offset: 91034},
+																																			pos:        position{line: 2884, col: 29, offset: 91122},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35339,9 +35479,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2893, col: 8, offset: 91194},
+																																pos: position{line: 2894, col: 8, offset: 91282},
 																																expr: &anyMatcher{
-																																	line: 2893, col: 9, offset: 91195,
+																																	line: 2894, col: 9, offset: 91283,
 																																},
 																															},
 																														},
@@ -35350,40 +35490,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2650, col: 24, offset: 84330},
-																											run: (*parser).callonListContinuationElement1401,
+																											pos: position{line: 2651, col: 24, offset: 84418},
+																											run: (*parser).callonListContinuationElement1407,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2650, col: 24, offset: 84330},
+																												pos:   position{line: 2651, col: 24, offset: 84418},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2650, col: 30, offset: 84336},
+																													pos: position{line: 2651, col: 30, offset: 84424},
 																													expr: &actionExpr{
-																														pos: position{line: 2655, col: 5, offset: 84412},
-																														run: (*parser).callonListContinuationElement1404,
+																														pos: position{line: 2656, col: 5, offset: 84500},
+																														run: (*parser).callonListContinuationElement1410,
 																														expr: &seqExpr{
-																															pos: position{line: 2655, col: 5, offset: 84412},
+																															pos: position{line: 2656, col: 5, offset: 84500},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84412},
+																																	pos: position{line: 2656, col: 5, offset: 84500},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2620, col: 22, offset: 83609},
+																																		pos: position{line: 2621, col: 22, offset: 83697},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2616, col: 19, offset: 83529},
+																																				pos: position{line: 2617, col: 19, offset: 83617},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2616, col: 19, offset: 83529},
+																																						pos:        position{line: 2617, col: 19, offset: 83617},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2616, col: 26, offset: 83536},
+																																						pos: position{line: 2617, col: 26, offset: 83624},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2874, col: 10, offset: 90846},
-																																							run: (*parser).callonListContinuationElement1411,
+																																							pos: position{line: 2875, col: 10, offset: 90934},
+																																							run: (*parser).callonListContinuationElement1417,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2874, col: 10, offset: 90846},
+																																								pos:        position{line: 2875, col: 10, offset: 90934},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35392,28 +35532,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2896, col: 8, offset: 91244},
+																																						pos: position{line: 2897, col: 8, offset: 91332},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2883, col: 12, offset: 91017},
-																																								run: (*parser).callonListContinuationElement1414,
+																																								pos: position{line: 2884, col: 12, offset: 91105},
+																																								run: (*parser).callonListContinuationElement1420,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2883, col: 13, offset: 91018},
+																																									pos: position{line: 2884, col: 13, offset: 91106},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2883, col: 13, offset: 91018},
+																																											pos:        position{line: 2884, col: 13, offset: 91106},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2883, col: 20, offset: 91025},
+																																											pos:        position{line: 2884, col: 20, offset: 91113},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2883, col: 29, offset: 91034},
+																																											pos:        position{line: 2884, col: 29, offset: 91122},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35422,9 +35562,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2893, col: 8, offset: 91194},
+																																								pos: position{line: 2894, col: 8, offset: 91282},
 																																								expr: &anyMatcher{
-																																									line: 2893, col: 9, offset: 91195,
+																																									line: 2894, col: 9, offset: 91283,
 																																								},
 																																							},
 																																						},
@@ -35432,35 +35572,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2893, col: 8, offset: 91194},
+																																				pos: position{line: 2894, col: 8, offset: 91282},
 																																				expr: &anyMatcher{
-																																					line: 2893, col: 9, offset: 91195,
+																																					line: 2894, col: 9, offset: 91283,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2656, col: 5, offset: 84435},
+																																	pos: position{line: 2657, col: 5, offset: 84523},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1424,
+																																		run: (*parser).callonListContinuationElement1430,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2891, col: 11, offset: 91180},
+																																					pos: position{line: 2892, col: 11, offset: 91268},
 																																					expr: &anyMatcher{
-																																						line: 2891, col: 13, offset: 91182,
+																																						line: 2892, col: 13, offset: 91270,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2874, col: 10, offset: 90846},
-																																						run: (*parser).callonListContinuationElement1429,
+																																						pos: position{line: 2875, col: 10, offset: 90934},
+																																						run: (*parser).callonListContinuationElement1435,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2874, col: 10, offset: 90846},
+																																							pos:        position{line: 2875, col: 10, offset: 90934},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35469,28 +35609,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2896, col: 8, offset: 91244},
+																																					pos: position{line: 2897, col: 8, offset: 91332},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2883, col: 12, offset: 91017},
-																																							run: (*parser).callonListContinuationElement1432,
+																																							pos: position{line: 2884, col: 12, offset: 91105},
+																																							run: (*parser).callonListContinuationElement1438,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2883, col: 13, offset: 91018},
+																																								pos: position{line: 2884, col: 13, offset: 91106},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2883, col: 13, offset: 91018},
+																																										pos:        position{line: 2884, col: 13, offset: 91106},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2883, col: 20, offset: 91025},
+																																										pos:        position{line: 2884, col: 20, offset: 91113},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2883, col: 29, offset: 91034},
+																																										pos:        position{line: 2884, col: 29, offset: 91122},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35499,9 +35639,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2893, col: 8, offset: 91194},
+																																							pos: position{line: 2894, col: 8, offset: 91282},
 																																							expr: &anyMatcher{
-																																								line: 2893, col: 9, offset: 91195,
+																																								line: 2894, col: 9, offset: 91283,
 																																							},
 																																						},
 																																					},
@@ -35511,17 +35651,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2657, col: 5, offset: 84450},
+																																	pos:   position{line: 2658, col: 5, offset: 84538},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2657, col: 12, offset: 84457},
+																																		pos: position{line: 2658, col: 12, offset: 84545},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2674, col: 20, offset: 84921},
-																																			run: (*parser).callonListContinuationElement1441,
+																																			pos: position{line: 2675, col: 20, offset: 85009},
+																																			run: (*parser).callonListContinuationElement1447,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2674, col: 20, offset: 84921},
+																																				pos: position{line: 2675, col: 20, offset: 85009},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2674, col: 20, offset: 84921},
+																																					pos:        position{line: 2675, col: 20, offset: 85009},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35532,18 +35672,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2657, col: 31, offset: 84476},
+																																	pos:        position{line: 2658, col: 31, offset: 84564},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2657, col: 35, offset: 84480},
+																																	pos: position{line: 2658, col: 35, offset: 84568},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2874, col: 10, offset: 90846},
-																																		run: (*parser).callonListContinuationElement1446,
+																																		pos: position{line: 2875, col: 10, offset: 90934},
+																																		run: (*parser).callonListContinuationElement1452,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2874, col: 10, offset: 90846},
+																																			pos:        position{line: 2875, col: 10, offset: 90934},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35552,27 +35692,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2657, col: 42, offset: 84487},
+																																	pos: position{line: 2658, col: 42, offset: 84575},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2883, col: 12, offset: 91017},
-																																		run: (*parser).callonListContinuationElement1449,
+																																		pos: position{line: 2884, col: 12, offset: 91105},
+																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2883, col: 13, offset: 91018},
+																																			pos: position{line: 2884, col: 13, offset: 91106},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2883, col: 13, offset: 91018},
+																																					pos:        position{line: 2884, col: 13, offset: 91106},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2883, col: 20, offset: 91025},
+																																					pos:        position{line: 2884, col: 20, offset: 91113},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2883, col: 29, offset: 91034},
+																																					pos:        position{line: 2884, col: 29, offset: 91122},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35582,37 +35722,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2657, col: 51, offset: 84496},
+																																	pos:   position{line: 2658, col: 51, offset: 84584},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2663, col: 5, offset: 84655},
+																																		pos: position{line: 2664, col: 5, offset: 84743},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2664, col: 9, offset: 84665},
-																																			run: (*parser).callonListContinuationElement1456,
+																																			pos: position{line: 2665, col: 9, offset: 84753},
+																																			run: (*parser).callonListContinuationElement1462,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2664, col: 9, offset: 84665},
+																																				pos: position{line: 2665, col: 9, offset: 84753},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2664, col: 9, offset: 84665},
+																																						pos: position{line: 2665, col: 9, offset: 84753},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2620, col: 22, offset: 83609},
+																																							pos: position{line: 2621, col: 22, offset: 83697},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2616, col: 19, offset: 83529},
+																																									pos: position{line: 2617, col: 19, offset: 83617},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2616, col: 19, offset: 83529},
+																																											pos:        position{line: 2617, col: 19, offset: 83617},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2616, col: 26, offset: 83536},
+																																											pos: position{line: 2617, col: 26, offset: 83624},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2874, col: 10, offset: 90846},
-																																												run: (*parser).callonListContinuationElement1463,
+																																												pos: position{line: 2875, col: 10, offset: 90934},
+																																												run: (*parser).callonListContinuationElement1469,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2874, col: 10, offset: 90846},
+																																													pos:        position{line: 2875, col: 10, offset: 90934},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35621,28 +35761,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2896, col: 8, offset: 91244},
+																																											pos: position{line: 2897, col: 8, offset: 91332},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2883, col: 12, offset: 91017},
-																																													run: (*parser).callonListContinuationElement1466,
+																																													pos: position{line: 2884, col: 12, offset: 91105},
+																																													run: (*parser).callonListContinuationElement1472,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2883, col: 13, offset: 91018},
+																																														pos: position{line: 2884, col: 13, offset: 91106},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35651,9 +35791,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2893, col: 8, offset: 91194},
+																																													pos: position{line: 2894, col: 8, offset: 91282},
 																																													expr: &anyMatcher{
-																																														line: 2893, col: 9, offset: 91195,
+																																														line: 2894, col: 9, offset: 91283,
 																																													},
 																																												},
 																																											},
@@ -35661,35 +35801,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2893, col: 8, offset: 91194},
+																																									pos: position{line: 2894, col: 8, offset: 91282},
 																																									expr: &anyMatcher{
-																																										line: 2893, col: 9, offset: 91195,
+																																										line: 2894, col: 9, offset: 91283,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84692},
+																																						pos: position{line: 2666, col: 9, offset: 84780},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1476,
+																																							run: (*parser).callonListContinuationElement1482,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2891, col: 11, offset: 91180},
+																																										pos: position{line: 2892, col: 11, offset: 91268},
 																																										expr: &anyMatcher{
-																																											line: 2891, col: 13, offset: 91182,
+																																											line: 2892, col: 13, offset: 91270,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2874, col: 10, offset: 90846},
-																																											run: (*parser).callonListContinuationElement1481,
+																																											pos: position{line: 2875, col: 10, offset: 90934},
+																																											run: (*parser).callonListContinuationElement1487,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2874, col: 10, offset: 90846},
+																																												pos:        position{line: 2875, col: 10, offset: 90934},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35698,28 +35838,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91244},
+																																										pos: position{line: 2897, col: 8, offset: 91332},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2883, col: 12, offset: 91017},
-																																												run: (*parser).callonListContinuationElement1484,
+																																												pos: position{line: 2884, col: 12, offset: 91105},
+																																												run: (*parser).callonListContinuationElement1490,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2883, col: 13, offset: 91018},
+																																													pos: position{line: 2884, col: 13, offset: 91106},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2883, col: 13, offset: 91018},
+																																															pos:        position{line: 2884, col: 13, offset: 91106},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2883, col: 20, offset: 91025},
+																																															pos:        position{line: 2884, col: 20, offset: 91113},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2883, col: 29, offset: 91034},
+																																															pos:        position{line: 2884, col: 29, offset: 91122},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35728,9 +35868,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2893, col: 8, offset: 91194},
+																																												pos: position{line: 2894, col: 8, offset: 91282},
 																																												expr: &anyMatcher{
-																																													line: 2893, col: 9, offset: 91195,
+																																													line: 2894, col: 9, offset: 91283,
 																																												},
 																																											},
 																																										},
@@ -35740,22 +35880,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84711},
+																																						pos: position{line: 2667, col: 9, offset: 84799},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2666, col: 11, offset: 84713},
+																																							pos: position{line: 2667, col: 11, offset: 84801},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2666, col: 11, offset: 84713},
+																																									pos:   position{line: 2667, col: 11, offset: 84801},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2666, col: 18, offset: 84720},
+																																										pos: position{line: 2667, col: 18, offset: 84808},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2674, col: 20, offset: 84921},
-																																											run: (*parser).callonListContinuationElement1495,
+																																											pos: position{line: 2675, col: 20, offset: 85009},
+																																											run: (*parser).callonListContinuationElement1501,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2674, col: 20, offset: 84921},
+																																												pos: position{line: 2675, col: 20, offset: 85009},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2674, col: 20, offset: 84921},
+																																													pos:        position{line: 2675, col: 20, offset: 85009},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35766,7 +35906,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2666, col: 37, offset: 84739},
+																																									pos:        position{line: 2667, col: 37, offset: 84827},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35775,15 +35915,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2667, col: 9, offset: 84752},
+																																						pos:   position{line: 2668, col: 9, offset: 84840},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2667, col: 18, offset: 84761},
-																																							run: (*parser).callonListContinuationElement1500,
+																																							pos: position{line: 2668, col: 18, offset: 84849},
+																																							run: (*parser).callonListContinuationElement1506,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2667, col: 18, offset: 84761},
+																																								pos: position{line: 2668, col: 18, offset: 84849},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2667, col: 18, offset: 84761},
+																																									pos:        position{line: 2668, col: 18, offset: 84849},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35793,30 +35933,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2669, col: 12, offset: 84823},
+																																						pos: position{line: 2670, col: 12, offset: 84911},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2896, col: 8, offset: 91244},
+																																							pos: position{line: 2897, col: 8, offset: 91332},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2883, col: 12, offset: 91017},
-																																									run: (*parser).callonListContinuationElement1505,
+																																									pos: position{line: 2884, col: 12, offset: 91105},
+																																									run: (*parser).callonListContinuationElement1511,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2883, col: 13, offset: 91018},
+																																										pos: position{line: 2884, col: 13, offset: 91106},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2883, col: 13, offset: 91018},
+																																												pos:        position{line: 2884, col: 13, offset: 91106},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2883, col: 20, offset: 91025},
+																																												pos:        position{line: 2884, col: 20, offset: 91113},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2883, col: 29, offset: 91034},
+																																												pos:        position{line: 2884, col: 29, offset: 91122},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35825,9 +35965,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2893, col: 8, offset: 91194},
+																																									pos: position{line: 2894, col: 8, offset: 91282},
 																																									expr: &anyMatcher{
-																																										line: 2893, col: 9, offset: 91195,
+																																										line: 2894, col: 9, offset: 91283,
 																																									},
 																																								},
 																																							},
@@ -35850,23 +35990,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1512,
+																							run: (*parser).callonListContinuationElement1518,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2891, col: 11, offset: 91180},
+																										pos: position{line: 2892, col: 11, offset: 91268},
 																										expr: &anyMatcher{
-																											line: 2891, col: 13, offset: 91182,
+																											line: 2892, col: 13, offset: 91270,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2874, col: 10, offset: 90846},
-																											run: (*parser).callonListContinuationElement1517,
+																											pos: position{line: 2875, col: 10, offset: 90934},
+																											run: (*parser).callonListContinuationElement1523,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2874, col: 10, offset: 90846},
+																												pos:        position{line: 2875, col: 10, offset: 90934},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35875,28 +36015,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2896, col: 8, offset: 91244},
+																										pos: position{line: 2897, col: 8, offset: 91332},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2883, col: 12, offset: 91017},
-																												run: (*parser).callonListContinuationElement1520,
+																												pos: position{line: 2884, col: 12, offset: 91105},
+																												run: (*parser).callonListContinuationElement1526,
 																												expr: &choiceExpr{
-																													pos: position{line: 2883, col: 13, offset: 91018},
+																													pos: position{line: 2884, col: 13, offset: 91106},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2883, col: 13, offset: 91018},
+																															pos:        position{line: 2884, col: 13, offset: 91106},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2883, col: 20, offset: 91025},
+																															pos:        position{line: 2884, col: 20, offset: 91113},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2883, col: 29, offset: 91034},
+																															pos:        position{line: 2884, col: 29, offset: 91122},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35905,9 +36045,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2893, col: 8, offset: 91194},
+																												pos: position{line: 2894, col: 8, offset: 91282},
 																												expr: &anyMatcher{
-																													line: 2893, col: 9, offset: 91195,
+																													line: 2894, col: 9, offset: 91283,
 																												},
 																											},
 																										},
@@ -35926,24 +36066,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2620, col: 22, offset: 83609},
+													pos: position{line: 2621, col: 22, offset: 83697},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2616, col: 19, offset: 83529},
+															pos: position{line: 2617, col: 19, offset: 83617},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2616, col: 19, offset: 83529},
+																	pos:        position{line: 2617, col: 19, offset: 83617},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2616, col: 26, offset: 83536},
+																	pos: position{line: 2617, col: 26, offset: 83624},
 																	expr: &actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
-																		run: (*parser).callonListContinuationElement1531,
+																		pos: position{line: 2875, col: 10, offset: 90934},
+																		run: (*parser).callonListContinuationElement1537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35952,28 +36092,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement1534,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement1540,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35982,9 +36122,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -35992,9 +36132,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -36003,36 +36143,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2481, col: 22, offset: 79760},
-										run: (*parser).callonListContinuationElement1543,
+										pos: position{line: 2482, col: 22, offset: 79848},
+										run: (*parser).callonListContinuationElement1549,
 										expr: &seqExpr{
-											pos: position{line: 2481, col: 22, offset: 79760},
+											pos: position{line: 2482, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2486, col: 31, offset: 79981},
+													pos:        position{line: 2487, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2486, col: 36, offset: 79986},
+													pos: position{line: 2487, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2486, col: 37, offset: 79987},
+														pos:        position{line: 2487, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2481, col: 49, offset: 79787},
+													pos:   position{line: 2482, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2820, col: 13, offset: 89372},
-														run: (*parser).callonListContinuationElement1549,
+														pos: position{line: 2821, col: 13, offset: 89460},
+														run: (*parser).callonListContinuationElement1555,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2820, col: 13, offset: 89372},
+															pos: position{line: 2821, col: 13, offset: 89460},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 13, offset: 89372},
+																pos:        position{line: 2821, col: 13, offset: 89460},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36042,28 +36182,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2896, col: 8, offset: 91244},
+													pos: position{line: 2897, col: 8, offset: 91332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
-															run: (*parser).callonListContinuationElement1553,
+															pos: position{line: 2884, col: 12, offset: 91105},
+															run: (*parser).callonListContinuationElement1559,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36072,9 +36212,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2893, col: 8, offset: 91194},
+															pos: position{line: 2894, col: 8, offset: 91282},
 															expr: &anyMatcher{
-																line: 2893, col: 9, offset: 91195,
+																line: 2894, col: 9, offset: 91283,
 															},
 														},
 													},
@@ -36084,7 +36224,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1561, col: 5, offset: 50416},
-										run: (*parser).callonListContinuationElement1560,
+										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
 											pos: position{line: 1561, col: 5, offset: 50416},
 											exprs: []interface{}{
@@ -36094,83 +36234,83 @@ var g = &grammar{
 													expr: &zeroOrOneExpr{
 														pos: position{line: 1561, col: 11, offset: 50422},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55739},
-															run: (*parser).callonListContinuationElement1564,
+															pos: position{line: 1726, col: 5, offset: 55771},
+															run: (*parser).callonListContinuationElement1570,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55739},
+																pos: position{line: 1726, col: 5, offset: 55771},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55739},
-																		run: (*parser).callonListContinuationElement1566,
+																		pos: position{line: 1726, col: 5, offset: 55771},
+																		run: (*parser).callonListContinuationElement1572,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55802},
+																		pos:   position{line: 1729, col: 5, offset: 55834},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55809},
+																			pos: position{line: 1729, col: 12, offset: 55841},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55809},
-																					run: (*parser).callonListContinuationElement1569,
+																					pos: position{line: 1729, col: 12, offset: 55841},
+																					run: (*parser).callonListContinuationElement1575,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55809},
+																						pos:        position{line: 1729, col: 12, offset: 55841},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 55865},
-																					run: (*parser).callonListContinuationElement1571,
+																					pos: position{line: 1731, col: 13, offset: 55897},
+																					run: (*parser).callonListContinuationElement1577,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 55865},
+																						pos:        position{line: 1731, col: 13, offset: 55897},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 55923},
-																					run: (*parser).callonListContinuationElement1573,
+																					pos: position{line: 1733, col: 13, offset: 55955},
+																					run: (*parser).callonListContinuationElement1579,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 55923},
+																						pos:        position{line: 1733, col: 13, offset: 55955},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 55991},
-																					run: (*parser).callonListContinuationElement1575,
+																					pos: position{line: 1735, col: 13, offset: 56023},
+																					run: (*parser).callonListContinuationElement1581,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 55991},
+																						pos:        position{line: 1735, col: 13, offset: 56023},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56055},
-																					run: (*parser).callonListContinuationElement1577,
+																					pos: position{line: 1737, col: 13, offset: 56087},
+																					run: (*parser).callonListContinuationElement1583,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56055},
+																						pos:        position{line: 1737, col: 13, offset: 56087},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56119},
-																					run: (*parser).callonListContinuationElement1579,
+																					pos: position{line: 1739, col: 13, offset: 56151},
+																					run: (*parser).callonListContinuationElement1585,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56119},
+																						pos: position{line: 1739, col: 13, offset: 56151},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 11, offset: 90907},
-																							run: (*parser).callonListContinuationElement1581,
+																							pos: position{line: 2879, col: 11, offset: 90995},
+																							run: (*parser).callonListContinuationElement1587,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2878, col: 11, offset: 90907},
+																								pos: position{line: 2879, col: 11, offset: 90995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 11, offset: 90907},
+																									pos:        position{line: 2879, col: 11, offset: 90995},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36184,17 +36324,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1741, col: 5, offset: 56204},
+																		pos: position{line: 1742, col: 5, offset: 56236},
 																		expr: &seqExpr{
-																			pos: position{line: 1741, col: 7, offset: 56206},
+																			pos: position{line: 1742, col: 7, offset: 56238},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1741, col: 7, offset: 56206},
+																					pos: position{line: 1742, col: 7, offset: 56238},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
-																						run: (*parser).callonListContinuationElement1587,
+																						pos: position{line: 2875, col: 10, offset: 90934},
+																						run: (*parser).callonListContinuationElement1593,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36203,28 +36343,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
-																							run: (*parser).callonListContinuationElement1590,
+																							pos: position{line: 2884, col: 12, offset: 91105},
+																							run: (*parser).callonListContinuationElement1596,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36233,9 +36373,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -36253,7 +36393,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48795},
-														run: (*parser).callonListContinuationElement1598,
+														run: (*parser).callonListContinuationElement1604,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48795},
 															exprs: []interface{}{
@@ -36261,23 +36401,23 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48795},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1601,
+																		run: (*parser).callonListContinuationElement1607,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2891, col: 11, offset: 91180},
+																					pos: position{line: 2892, col: 11, offset: 91268},
 																					expr: &anyMatcher{
-																						line: 2891, col: 13, offset: 91182,
+																						line: 2892, col: 13, offset: 91270,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
-																						run: (*parser).callonListContinuationElement1606,
+																						pos: position{line: 2875, col: 10, offset: 90934},
+																						run: (*parser).callonListContinuationElement1612,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36286,28 +36426,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2896, col: 8, offset: 91244},
+																					pos: position{line: 2897, col: 8, offset: 91332},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
-																							run: (*parser).callonListContinuationElement1609,
+																							pos: position{line: 2884, col: 12, offset: 91105},
+																							run: (*parser).callonListContinuationElement1615,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36316,9 +36456,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2893, col: 8, offset: 91194},
+																							pos: position{line: 2894, col: 8, offset: 91282},
 																							expr: &anyMatcher{
-																								line: 2893, col: 9, offset: 91195,
+																								line: 2894, col: 9, offset: 91283,
 																							},
 																						},
 																					},
@@ -36341,10 +36481,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1536, col: 31, offset: 49640},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
-																					run: (*parser).callonListContinuationElement1620,
+																					pos: position{line: 2875, col: 10, offset: 90934},
+																					run: (*parser).callonListContinuationElement1626,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36353,25 +36493,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
-																				run: (*parser).callonListContinuationElement1622,
+																				pos: position{line: 2884, col: 12, offset: 91105},
+																				run: (*parser).callonListContinuationElement1628,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36386,17 +36526,17 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48838},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50855},
-																		run: (*parser).callonListContinuationElement1628,
+																		run: (*parser).callonListContinuationElement1634,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50855},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1577, col: 5, offset: 50855},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
-																						run: (*parser).callonListContinuationElement1631,
+																						pos: position{line: 2875, col: 10, offset: 90934},
+																						run: (*parser).callonListContinuationElement1637,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36412,7 +36552,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50925},
-																								run: (*parser).callonListContinuationElement1635,
+																								run: (*parser).callonListContinuationElement1641,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50925},
 																									exprs: []interface{}{
@@ -36421,7 +36561,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50932},
-																												run: (*parser).callonListContinuationElement1638,
+																												run: (*parser).callonListContinuationElement1644,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50932},
 																													expr: &litMatcher{
@@ -36435,14 +36575,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51033},
-																											run: (*parser).callonListContinuationElement1641,
+																											run: (*parser).callonListContinuationElement1647,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51750},
-																								run: (*parser).callonListContinuationElement1642,
+																								run: (*parser).callonListContinuationElement1648,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51750},
 																									exprs: []interface{}{
@@ -36467,7 +36607,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51876},
-																								run: (*parser).callonListContinuationElement1647,
+																								run: (*parser).callonListContinuationElement1653,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51876},
 																									exprs: []interface{}{
@@ -36489,7 +36629,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52004},
-																								run: (*parser).callonListContinuationElement1651,
+																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52004},
 																									exprs: []interface{}{
@@ -36511,7 +36651,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52132},
-																								run: (*parser).callonListContinuationElement1655,
+																								run: (*parser).callonListContinuationElement1661,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52132},
 																									exprs: []interface{}{
@@ -36536,7 +36676,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52265},
-																								run: (*parser).callonListContinuationElement1660,
+																								run: (*parser).callonListContinuationElement1666,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52265},
 																									exprs: []interface{}{
@@ -36563,12 +36703,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2878, col: 11, offset: 90907},
-																					run: (*parser).callonListContinuationElement1665,
+																					pos: position{line: 2879, col: 11, offset: 90995},
+																					run: (*parser).callonListContinuationElement1671,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 11, offset: 90907},
+																						pos: position{line: 2879, col: 11, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 11, offset: 90907},
+																							pos:        position{line: 2879, col: 11, offset: 90995},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36584,17 +36724,17 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48868},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52817},
-																		run: (*parser).callonListContinuationElement1669,
+																		run: (*parser).callonListContinuationElement1675,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52817},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1627, col: 5, offset: 52817},
 																					expr: &actionExpr{
-																						pos: position{line: 2874, col: 10, offset: 90846},
-																						run: (*parser).callonListContinuationElement1672,
+																						pos: position{line: 2875, col: 10, offset: 90934},
+																						run: (*parser).callonListContinuationElement1678,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2874, col: 10, offset: 90846},
+																							pos:        position{line: 2875, col: 10, offset: 90934},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36607,7 +36747,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52845},
-																						run: (*parser).callonListContinuationElement1675,
+																						run: (*parser).callonListContinuationElement1681,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52846},
 																							alternatives: []interface{}{
@@ -36632,15 +36772,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52945},
-																					run: (*parser).callonListContinuationElement1680,
+																					run: (*parser).callonListContinuationElement1686,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2878, col: 11, offset: 90907},
-																					run: (*parser).callonListContinuationElement1681,
+																					pos: position{line: 2879, col: 11, offset: 90995},
+																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 11, offset: 90907},
+																						pos: position{line: 2879, col: 11, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 11, offset: 90907},
+																							pos:        position{line: 2879, col: 11, offset: 90995},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36655,27 +36795,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1509, col: 5, offset: 48900},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55354},
-																		run: (*parser).callonListContinuationElement1685,
+																		pos: position{line: 1717, col: 5, offset: 55386},
+																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55354},
+																			pos: position{line: 1717, col: 5, offset: 55386},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55354},
+																					pos:        position{line: 1717, col: 5, offset: 55386},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55358},
+																					pos:   position{line: 1717, col: 9, offset: 55390},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55363},
-																						run: (*parser).callonListContinuationElement1689,
+																						pos: position{line: 1717, col: 14, offset: 55395},
+																						run: (*parser).callonListContinuationElement1695,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55363},
+																							pos: position{line: 1717, col: 14, offset: 55395},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55363},
+																								pos:        position{line: 1717, col: 14, offset: 55395},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36685,18 +36825,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55411},
+																					pos:        position{line: 1717, col: 62, offset: 55443},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2878, col: 11, offset: 90907},
-																					run: (*parser).callonListContinuationElement1693,
+																					pos: position{line: 2879, col: 11, offset: 90995},
+																					run: (*parser).callonListContinuationElement1699,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 11, offset: 90907},
+																						pos: position{line: 2879, col: 11, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 11, offset: 90907},
+																							pos:        position{line: 2879, col: 11, offset: 90995},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36715,109 +36855,137 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonListContinuationElement1698,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonListContinuationElement1704,
+																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53836},
-																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonListContinuationElement1702,
-																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonListContinuationElement1705,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
-																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonListContinuationElement1708,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1662, col: 5, offset: 53836},
+																							expr: &seqExpr{
+																								pos: position{line: 2487, col: 31, offset: 80069},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2487, col: 31, offset: 80069},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2487, col: 36, offset: 80074},
+																										expr: &litMatcher{
+																											pos:        position{line: 2487, col: 37, offset: 80075},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
-																								expr: &choiceExpr{
-																									pos: position{line: 2896, col: 8, offset: 91244},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2883, col: 12, offset: 91017},
-																											run: (*parser).callonListContinuationElement1711,
-																											expr: &choiceExpr{
-																												pos: position{line: 2883, col: 13, offset: 91018},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 13, offset: 91018},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1663, col: 5, offset: 53868},
+																							expr: &seqExpr{
+																								pos: position{line: 1663, col: 6, offset: 53869},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1663, col: 6, offset: 53869},
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 5, offset: 54019},
+																											run: (*parser).callonListContinuationElement1714,
+																											expr: &seqExpr{
+																												pos: position{line: 1668, col: 5, offset: 54019},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1668, col: 5, offset: 54019},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1668, col: 16, offset: 54030},
+																															run: (*parser).callonListContinuationElement1717,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1668, col: 16, offset: 54030},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1668, col: 17, offset: 54031},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 20, offset: 91025},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2883, col: 29, offset: 91034},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1671, col: 5, offset: 54088},
+																														run: (*parser).callonListContinuationElement1720,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2893, col: 8, offset: 91194},
-																											expr: &anyMatcher{
-																												line: 2893, col: 9, offset: 91195,
+																									},
+																									&notExpr{
+																										pos: position{line: 1663, col: 35, offset: 53898},
+																										expr: &choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91332},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1723,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91106},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91282},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91283,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1663, col: 40, offset: 53903,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
-																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonListContinuationElement1719,
+																				pos: position{line: 1668, col: 5, offset: 54019},
+																				run: (*parser).callonListContinuationElement1731,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1668, col: 5, offset: 54019},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1668, col: 5, offset: 54019},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonListContinuationElement1722,
+																								pos: position{line: 1668, col: 16, offset: 54030},
+																								run: (*parser).callonListContinuationElement1734,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1668, col: 16, offset: 54030},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1668, col: 17, offset: 54031},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36826,8 +36994,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonListContinuationElement1725,
+																							pos: position{line: 1671, col: 5, offset: 54088},
+																							run: (*parser).callonListContinuationElement1737,
 																						},
 																					},
 																				},
@@ -36839,14 +37007,14 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 48988},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1727,
+																		run: (*parser).callonListContinuationElement1739,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2764, col: 13, offset: 87941},
+																						pos:        position{line: 2765, col: 13, offset: 88029},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36861,7 +37029,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1733,
+																								run: (*parser).callonListContinuationElement1745,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -36870,7 +37038,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1736,
+																												run: (*parser).callonListContinuationElement1748,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -36896,10 +37064,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1742,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1754,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36908,28 +37076,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1745,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1757,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36938,9 +37106,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -36950,7 +37118,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1752,
+																								run: (*parser).callonListContinuationElement1764,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -36959,7 +37127,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1755,
+																												run: (*parser).callonListContinuationElement1767,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -36985,10 +37153,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1761,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1773,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36997,28 +37165,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1764,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1776,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37027,9 +37195,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37039,7 +37207,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1771,
+																								run: (*parser).callonListContinuationElement1783,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -37054,7 +37222,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1775,
+																												run: (*parser).callonListContinuationElement1787,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37070,10 +37238,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1779,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1791,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37082,28 +37250,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1782,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1794,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37112,9 +37280,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37124,7 +37292,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1789,
+																								run: (*parser).callonListContinuationElement1801,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37133,7 +37301,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1792,
+																												run: (*parser).callonListContinuationElement1804,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37159,10 +37327,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1798,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1810,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37171,28 +37339,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1801,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1813,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37201,9 +37369,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37213,7 +37381,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1808,
+																								run: (*parser).callonListContinuationElement1820,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37222,7 +37390,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1811,
+																												run: (*parser).callonListContinuationElement1823,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37248,10 +37416,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1817,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1829,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37260,28 +37428,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1820,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1832,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37290,9 +37458,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37302,7 +37470,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1827,
+																								run: (*parser).callonListContinuationElement1839,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -37311,7 +37479,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1830,
+																												run: (*parser).callonListContinuationElement1842,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -37337,10 +37505,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1836,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1848,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37349,28 +37517,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1839,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1851,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37379,9 +37547,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37391,7 +37559,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1846,
+																								run: (*parser).callonListContinuationElement1858,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -37400,7 +37568,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1849,
+																												run: (*parser).callonListContinuationElement1861,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -37426,10 +37594,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1855,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1867,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37438,28 +37606,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1858,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1870,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37468,9 +37636,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37480,7 +37648,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1865,
+																								run: (*parser).callonListContinuationElement1877,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -37489,7 +37657,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1868,
+																												run: (*parser).callonListContinuationElement1880,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -37515,10 +37683,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1874,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1886,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37527,28 +37695,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1877,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1889,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37557,9 +37725,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37569,7 +37737,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1884,
+																								run: (*parser).callonListContinuationElement1896,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -37578,7 +37746,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1887,
+																												run: (*parser).callonListContinuationElement1899,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -37604,10 +37772,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 10, offset: 90846},
-																												run: (*parser).callonListContinuationElement1893,
+																												pos: position{line: 2875, col: 10, offset: 90934},
+																												run: (*parser).callonListContinuationElement1905,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2874, col: 10, offset: 90846},
+																													pos:        position{line: 2875, col: 10, offset: 90934},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37616,28 +37784,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2896, col: 8, offset: 91244},
+																											pos: position{line: 2897, col: 8, offset: 91332},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2883, col: 12, offset: 91017},
-																													run: (*parser).callonListContinuationElement1896,
+																													pos: position{line: 2884, col: 12, offset: 91105},
+																													run: (*parser).callonListContinuationElement1908,
 																													expr: &choiceExpr{
-																														pos: position{line: 2883, col: 13, offset: 91018},
+																														pos: position{line: 2884, col: 13, offset: 91106},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 13, offset: 91018},
+																																pos:        position{line: 2884, col: 13, offset: 91106},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 20, offset: 91025},
+																																pos:        position{line: 2884, col: 20, offset: 91113},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2883, col: 29, offset: 91034},
+																																pos:        position{line: 2884, col: 29, offset: 91122},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37646,9 +37814,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2893, col: 8, offset: 91194},
+																													pos: position{line: 2894, col: 8, offset: 91282},
 																													expr: &anyMatcher{
-																														line: 2893, col: 9, offset: 91195,
+																														line: 2894, col: 9, offset: 91283,
 																													},
 																												},
 																											},
@@ -37667,12 +37835,12 @@ var g = &grammar{
 																	pos:   position{line: 1512, col: 5, offset: 49008},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2824, col: 14, offset: 89439},
-																		run: (*parser).callonListContinuationElement1904,
+																		pos: position{line: 2825, col: 14, offset: 89527},
+																		run: (*parser).callonListContinuationElement1916,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2824, col: 14, offset: 89439},
+																			pos: position{line: 2825, col: 14, offset: 89527},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2824, col: 14, offset: 89439},
+																				pos:        position{line: 2825, col: 14, offset: 89527},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37682,28 +37850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
-																			run: (*parser).callonListContinuationElement1908,
+																			pos: position{line: 2884, col: 12, offset: 91105},
+																			run: (*parser).callonListContinuationElement1920,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37712,9 +37880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -37735,33 +37903,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54848},
+			pos:  position{line: 1701, col: 1, offset: 54880},
 			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 54926},
+				pos: position{line: 1703, col: 5, offset: 54958},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 54926},
+					pos: position{line: 1703, col: 5, offset: 54958},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 54926},
+							pos: position{line: 1703, col: 5, offset: 54958},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 54993},
+							pos:        position{line: 1706, col: 5, offset: 55025},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 54997},
+							pos:   position{line: 1706, col: 9, offset: 55029},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55002},
+								pos: position{line: 1706, col: 14, offset: 55034},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55002},
+									pos: position{line: 1706, col: 14, offset: 55034},
 									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55002},
+										pos:        position{line: 1706, col: 14, offset: 55034},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37771,18 +37939,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55050},
+							pos:        position{line: 1706, col: 62, offset: 55082},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55054},
+							pos: position{line: 1706, col: 66, offset: 55086},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37791,30 +37959,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55061},
+							pos: position{line: 1706, col: 73, offset: 55093},
 							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55063},
+								pos: position{line: 1706, col: 75, offset: 55095},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91017},
+										pos: position{line: 2884, col: 12, offset: 91105},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2883, col: 13, offset: 91018},
+											pos: position{line: 2884, col: 13, offset: 91106},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2883, col: 13, offset: 91018},
+													pos:        position{line: 2884, col: 13, offset: 91106},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 20, offset: 91025},
+													pos:        position{line: 2884, col: 20, offset: 91113},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 29, offset: 91034},
+													pos:        position{line: 2884, col: 29, offset: 91122},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37823,13 +37991,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2893, col: 8, offset: 91194},
+										pos: position{line: 2894, col: 8, offset: 91282},
 										expr: &anyMatcher{
-											line: 2893, col: 9, offset: 91195,
+											line: 2894, col: 9, offset: 91283,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55069},
+										pos:  position{line: 1706, col: 81, offset: 55101},
 										name: "Callout",
 									},
 								},
@@ -37841,44 +38009,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1745, col: 1, offset: 56304},
+			pos:  position{line: 1746, col: 1, offset: 56336},
 			expr: &actionExpr{
-				pos: position{line: 1747, col: 5, offset: 56378},
+				pos: position{line: 1748, col: 5, offset: 56410},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1747, col: 5, offset: 56378},
+					pos: position{line: 1748, col: 5, offset: 56410},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1747, col: 5, offset: 56378},
+							pos: position{line: 1748, col: 5, offset: 56410},
 							expr: &seqExpr{
-								pos: position{line: 1747, col: 7, offset: 56380},
+								pos: position{line: 1748, col: 7, offset: 56412},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2764, col: 13, offset: 87941},
+										pos:        position{line: 2765, col: 13, offset: 88029},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1747, col: 16, offset: 56389},
+										pos: position{line: 1748, col: 16, offset: 56421},
 										expr: &seqExpr{
-											pos: position{line: 1747, col: 18, offset: 56391},
+											pos: position{line: 1748, col: 18, offset: 56423},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1747, col: 19, offset: 56392},
+													pos:        position{line: 1748, col: 19, offset: 56424},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2878, col: 11, offset: 90907},
+													pos: position{line: 2879, col: 11, offset: 90995},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2878, col: 11, offset: 90907},
+														pos: position{line: 2879, col: 11, offset: 90995},
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 11, offset: 90907},
+															pos:        position{line: 2879, col: 11, offset: 90995},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37893,88 +38061,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56532},
+							pos:   position{line: 1749, col: 5, offset: 56564},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1748, col: 11, offset: 56538},
+								pos: position{line: 1749, col: 11, offset: 56570},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1726, col: 5, offset: 55771},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1726, col: 5, offset: 55771},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1726, col: 5, offset: 55771},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1729, col: 5, offset: 55834},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1729, col: 12, offset: 55841},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1729, col: 12, offset: 55841},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1729, col: 12, offset: 55841},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1731, col: 13, offset: 55897},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1731, col: 13, offset: 55897},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1733, col: 13, offset: 55955},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1733, col: 13, offset: 55955},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1735, col: 13, offset: 56023},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1735, col: 13, offset: 56023},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1737, col: 13, offset: 56087},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1737, col: 13, offset: 56087},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1739, col: 13, offset: 56151},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1739, col: 13, offset: 56151},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37988,17 +38156,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1741, col: 5, offset: 56204},
+												pos: position{line: 1742, col: 5, offset: 56236},
 												expr: &seqExpr{
-													pos: position{line: 1741, col: 7, offset: 56206},
+													pos: position{line: 1742, col: 7, offset: 56238},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1741, col: 7, offset: 56206},
+															pos: position{line: 1742, col: 7, offset: 56238},
 															expr: &actionExpr{
-																pos: position{line: 2874, col: 10, offset: 90846},
+																pos: position{line: 2875, col: 10, offset: 90934},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 10, offset: 90846},
+																	pos:        position{line: 2875, col: 10, offset: 90934},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38007,28 +38175,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2896, col: 8, offset: 91244},
+															pos: position{line: 2897, col: 8, offset: 91332},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2883, col: 12, offset: 91017},
+																	pos: position{line: 2884, col: 12, offset: 91105},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2883, col: 13, offset: 91018},
+																		pos: position{line: 2884, col: 13, offset: 91106},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 13, offset: 91018},
+																				pos:        position{line: 2884, col: 13, offset: 91106},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 20, offset: 91025},
+																				pos:        position{line: 2884, col: 20, offset: 91113},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 29, offset: 91034},
+																				pos:        position{line: 2884, col: 29, offset: 91122},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38037,9 +38205,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -38053,24 +38221,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1749, col: 5, offset: 56560},
+							pos:   position{line: 1750, col: 5, offset: 56592},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1785, col: 5, offset: 57667},
+								pos: position{line: 1786, col: 5, offset: 57699},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1785, col: 5, offset: 57667},
+									pos: position{line: 1786, col: 5, offset: 57699},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1785, col: 5, offset: 57667},
+											pos:   position{line: 1786, col: 5, offset: 57699},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2824, col: 14, offset: 89439},
+												pos: position{line: 2825, col: 14, offset: 89527},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2824, col: 14, offset: 89439},
+													pos: position{line: 2825, col: 14, offset: 89527},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 14, offset: 89439},
+														pos:        position{line: 2825, col: 14, offset: 89527},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38080,32 +38248,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1786, col: 5, offset: 57691},
+											pos: position{line: 1787, col: 5, offset: 57723},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2896, col: 8, offset: 91244},
+											pos: position{line: 2897, col: 8, offset: 91332},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2883, col: 12, offset: 91017},
+													pos: position{line: 2884, col: 12, offset: 91105},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2883, col: 13, offset: 91018},
+														pos: position{line: 2884, col: 13, offset: 91106},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2883, col: 13, offset: 91018},
+																pos:        position{line: 2884, col: 13, offset: 91106},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2883, col: 20, offset: 91025},
+																pos:        position{line: 2884, col: 20, offset: 91113},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2883, col: 29, offset: 91034},
+																pos:        position{line: 2884, col: 29, offset: 91122},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38114,9 +38282,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -38126,28 +38294,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1750, col: 5, offset: 56594},
+							pos: position{line: 1751, col: 5, offset: 56626},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1757, col: 5, offset: 56924},
+							pos:   position{line: 1758, col: 5, offset: 56956},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1757, col: 16, offset: 56935},
+								pos: position{line: 1758, col: 16, offset: 56967},
 								expr: &actionExpr{
-									pos: position{line: 1758, col: 9, offset: 56945},
+									pos: position{line: 1759, col: 9, offset: 56977},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1758, col: 9, offset: 56945},
+										pos: position{line: 1759, col: 9, offset: 56977},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2891, col: 11, offset: 91180},
+												pos: position{line: 2892, col: 11, offset: 91268},
 												expr: &anyMatcher{
-													line: 2891, col: 13, offset: 91182,
+													line: 2892, col: 13, offset: 91270,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56961},
+												pos: position{line: 1760, col: 9, offset: 56993},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonShortcutParagraph71,
@@ -38155,18 +38323,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2891, col: 11, offset: 91180},
+																pos: position{line: 2892, col: 11, offset: 91268},
 																expr: &anyMatcher{
-																	line: 2891, col: 13, offset: 91182,
+																	line: 2892, col: 13, offset: 91270,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38175,28 +38343,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38205,9 +38373,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -38217,14 +38385,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56980},
+												pos: position{line: 1761, col: 9, offset: 57012},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1760, col: 10, offset: 56981},
+													pos:  position{line: 1761, col: 10, offset: 57013},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 57005},
+												pos: position{line: 1762, col: 9, offset: 57037},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													run: (*parser).callonShortcutParagraph89,
@@ -38234,7 +38402,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2764, col: 13, offset: 87941},
+																	pos:        position{line: 2765, col: 13, offset: 88029},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38284,10 +38452,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38296,28 +38464,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38326,9 +38494,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38373,10 +38541,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38385,28 +38553,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38415,9 +38583,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38458,10 +38626,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38470,28 +38638,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38500,9 +38668,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38547,10 +38715,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38559,28 +38727,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38589,9 +38757,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38636,10 +38804,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38648,28 +38816,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38678,9 +38846,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38725,10 +38893,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38737,28 +38905,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38767,9 +38935,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38814,10 +38982,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38826,28 +38994,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38856,9 +39024,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38903,10 +39071,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38915,28 +39083,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38945,9 +39113,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -38992,10 +39160,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39004,28 +39172,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2896, col: 8, offset: 91244},
+																						pos: position{line: 2897, col: 8, offset: 91332},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2883, col: 12, offset: 91017},
+																								pos: position{line: 2884, col: 12, offset: 91105},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 13, offset: 91018},
+																									pos: position{line: 2884, col: 13, offset: 91106},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 13, offset: 91018},
+																											pos:        position{line: 2884, col: 13, offset: 91106},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 20, offset: 91025},
+																											pos:        position{line: 2884, col: 20, offset: 91113},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2883, col: 29, offset: 91034},
+																											pos:        position{line: 2884, col: 29, offset: 91122},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39034,9 +39202,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2893, col: 8, offset: 91194},
+																								pos: position{line: 2894, col: 8, offset: 91282},
 																								expr: &anyMatcher{
-																									line: 2893, col: 9, offset: 91195,
+																									line: 2894, col: 9, offset: 91283,
 																								},
 																							},
 																						},
@@ -39052,7 +39220,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1762, col: 9, offset: 57029},
+												pos: position{line: 1763, col: 9, offset: 57061},
 												expr: &seqExpr{
 													pos: position{line: 1536, col: 27, offset: 49636},
 													exprs: []interface{}{
@@ -39065,10 +39233,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1536, col: 31, offset: 49640},
 															expr: &actionExpr{
-																pos: position{line: 2874, col: 10, offset: 90846},
+																pos: position{line: 2875, col: 10, offset: 90934},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 10, offset: 90846},
+																	pos:        position{line: 2875, col: 10, offset: 90934},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39077,25 +39245,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
+															pos: position{line: 2884, col: 12, offset: 91105},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39107,42 +39275,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1763, col: 9, offset: 57061},
+												pos:   position{line: 1764, col: 9, offset: 57093},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1763, col: 15, offset: 57067},
+													pos: position{line: 1764, col: 15, offset: 57099},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2481, col: 22, offset: 79760},
+															pos: position{line: 2482, col: 22, offset: 79848},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2481, col: 22, offset: 79760},
+																pos: position{line: 2482, col: 22, offset: 79848},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2486, col: 31, offset: 79981},
+																		pos:        position{line: 2487, col: 31, offset: 80069},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2486, col: 36, offset: 79986},
+																		pos: position{line: 2487, col: 36, offset: 80074},
 																		expr: &litMatcher{
-																			pos:        position{line: 2486, col: 37, offset: 79987},
+																			pos:        position{line: 2487, col: 37, offset: 80075},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2481, col: 49, offset: 79787},
+																		pos:   position{line: 2482, col: 49, offset: 79875},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2820, col: 13, offset: 89372},
+																			pos: position{line: 2821, col: 13, offset: 89460},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2820, col: 13, offset: 89372},
+																				pos: position{line: 2821, col: 13, offset: 89460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 13, offset: 89372},
+																					pos:        position{line: 2821, col: 13, offset: 89460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39152,28 +39320,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39182,9 +39350,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -39193,21 +39361,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1785, col: 5, offset: 57667},
+															pos: position{line: 1786, col: 5, offset: 57699},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1785, col: 5, offset: 57667},
+																pos: position{line: 1786, col: 5, offset: 57699},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1785, col: 5, offset: 57667},
+																		pos:   position{line: 1786, col: 5, offset: 57699},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2824, col: 14, offset: 89439},
+																			pos: position{line: 2825, col: 14, offset: 89527},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2824, col: 14, offset: 89439},
+																				pos: position{line: 2825, col: 14, offset: 89527},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2824, col: 14, offset: 89439},
+																					pos:        position{line: 2825, col: 14, offset: 89527},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39217,32 +39385,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1786, col: 5, offset: 57691},
+																		pos: position{line: 1787, col: 5, offset: 57723},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39251,9 +39419,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -39275,96 +39443,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1770, col: 1, offset: 57271},
+			pos:  position{line: 1771, col: 1, offset: 57303},
 			expr: &actionExpr{
-				pos: position{line: 1771, col: 5, offset: 57289},
+				pos: position{line: 1772, col: 5, offset: 57321},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1771, col: 5, offset: 57289},
+					pos: position{line: 1772, col: 5, offset: 57321},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57289},
+							pos:   position{line: 1772, col: 5, offset: 57321},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1771, col: 11, offset: 57295},
+								pos: position{line: 1772, col: 11, offset: 57327},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1726, col: 5, offset: 55771},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1726, col: 5, offset: 55771},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1726, col: 5, offset: 55771},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1729, col: 5, offset: 55834},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1729, col: 12, offset: 55841},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1729, col: 12, offset: 55841},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1729, col: 12, offset: 55841},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1731, col: 13, offset: 55897},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1731, col: 13, offset: 55897},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1733, col: 13, offset: 55955},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1733, col: 13, offset: 55955},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1735, col: 13, offset: 56023},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1735, col: 13, offset: 56023},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1737, col: 13, offset: 56087},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1737, col: 13, offset: 56087},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1739, col: 13, offset: 56151},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1739, col: 13, offset: 56151},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 11, offset: 90907},
+																	pos: position{line: 2879, col: 11, offset: 90995},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2878, col: 11, offset: 90907},
+																		pos: position{line: 2879, col: 11, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 11, offset: 90907},
+																			pos:        position{line: 2879, col: 11, offset: 90995},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39378,17 +39546,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1741, col: 5, offset: 56204},
+												pos: position{line: 1742, col: 5, offset: 56236},
 												expr: &seqExpr{
-													pos: position{line: 1741, col: 7, offset: 56206},
+													pos: position{line: 1742, col: 7, offset: 56238},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1741, col: 7, offset: 56206},
+															pos: position{line: 1742, col: 7, offset: 56238},
 															expr: &actionExpr{
-																pos: position{line: 2874, col: 10, offset: 90846},
+																pos: position{line: 2875, col: 10, offset: 90934},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 10, offset: 90846},
+																	pos:        position{line: 2875, col: 10, offset: 90934},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39397,28 +39565,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2896, col: 8, offset: 91244},
+															pos: position{line: 2897, col: 8, offset: 91332},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2883, col: 12, offset: 91017},
+																	pos: position{line: 2884, col: 12, offset: 91105},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2883, col: 13, offset: 91018},
+																		pos: position{line: 2884, col: 13, offset: 91106},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 13, offset: 91018},
+																				pos:        position{line: 2884, col: 13, offset: 91106},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 20, offset: 91025},
+																				pos:        position{line: 2884, col: 20, offset: 91113},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 29, offset: 91034},
+																				pos:        position{line: 2884, col: 29, offset: 91122},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39427,9 +39595,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -39443,24 +39611,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57318},
+							pos:   position{line: 1773, col: 5, offset: 57350},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1785, col: 5, offset: 57667},
+								pos: position{line: 1786, col: 5, offset: 57699},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1785, col: 5, offset: 57667},
+									pos: position{line: 1786, col: 5, offset: 57699},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1785, col: 5, offset: 57667},
+											pos:   position{line: 1786, col: 5, offset: 57699},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2824, col: 14, offset: 89439},
+												pos: position{line: 2825, col: 14, offset: 89527},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2824, col: 14, offset: 89439},
+													pos: position{line: 2825, col: 14, offset: 89527},
 													expr: &charClassMatcher{
-														pos:        position{line: 2824, col: 14, offset: 89439},
+														pos:        position{line: 2825, col: 14, offset: 89527},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39470,32 +39638,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1786, col: 5, offset: 57691},
+											pos: position{line: 1787, col: 5, offset: 57723},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2896, col: 8, offset: 91244},
+											pos: position{line: 2897, col: 8, offset: 91332},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2883, col: 12, offset: 91017},
+													pos: position{line: 2884, col: 12, offset: 91105},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2883, col: 13, offset: 91018},
+														pos: position{line: 2884, col: 13, offset: 91106},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2883, col: 13, offset: 91018},
+																pos:        position{line: 2884, col: 13, offset: 91106},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2883, col: 20, offset: 91025},
+																pos:        position{line: 2884, col: 20, offset: 91113},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2883, col: 29, offset: 91034},
+																pos:        position{line: 2884, col: 29, offset: 91122},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39504,9 +39672,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2893, col: 8, offset: 91194},
+													pos: position{line: 2894, col: 8, offset: 91282},
 													expr: &anyMatcher{
-														line: 2893, col: 9, offset: 91195,
+														line: 2894, col: 9, offset: 91283,
 													},
 												},
 											},
@@ -39516,24 +39684,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1773, col: 5, offset: 57352},
+							pos:   position{line: 1774, col: 5, offset: 57384},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1773, col: 16, offset: 57363},
+								pos: position{line: 1774, col: 16, offset: 57395},
 								expr: &actionExpr{
-									pos: position{line: 1774, col: 9, offset: 57373},
+									pos: position{line: 1775, col: 9, offset: 57405},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1774, col: 9, offset: 57373},
+										pos: position{line: 1775, col: 9, offset: 57405},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2891, col: 11, offset: 91180},
+												pos: position{line: 2892, col: 11, offset: 91268},
 												expr: &anyMatcher{
-													line: 2891, col: 13, offset: 91182,
+													line: 2892, col: 13, offset: 91270,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57388},
+												pos: position{line: 1776, col: 9, offset: 57420},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonParagraph61,
@@ -39541,18 +39709,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2891, col: 11, offset: 91180},
+																pos: position{line: 2892, col: 11, offset: 91268},
 																expr: &anyMatcher{
-																	line: 2891, col: 13, offset: 91182,
+																	line: 2892, col: 13, offset: 91270,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39561,28 +39729,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2896, col: 8, offset: 91244},
+																pos: position{line: 2897, col: 8, offset: 91332},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2883, col: 12, offset: 91017},
+																		pos: position{line: 2884, col: 12, offset: 91105},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 13, offset: 91018},
+																			pos: position{line: 2884, col: 13, offset: 91106},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 13, offset: 91018},
+																					pos:        position{line: 2884, col: 13, offset: 91106},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 20, offset: 91025},
+																					pos:        position{line: 2884, col: 20, offset: 91113},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2883, col: 29, offset: 91034},
+																					pos:        position{line: 2884, col: 29, offset: 91122},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39591,9 +39759,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2893, col: 8, offset: 91194},
+																		pos: position{line: 2894, col: 8, offset: 91282},
 																		expr: &anyMatcher{
-																			line: 2893, col: 9, offset: 91195,
+																			line: 2894, col: 9, offset: 91283,
 																		},
 																	},
 																},
@@ -39603,49 +39771,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1776, col: 9, offset: 57407},
+												pos: position{line: 1777, col: 9, offset: 57439},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1776, col: 10, offset: 57408},
+													pos:  position{line: 1777, col: 10, offset: 57440},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1777, col: 9, offset: 57432},
+												pos:   position{line: 1778, col: 9, offset: 57464},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1777, col: 15, offset: 57438},
+													pos: position{line: 1778, col: 15, offset: 57470},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2481, col: 22, offset: 79760},
+															pos: position{line: 2482, col: 22, offset: 79848},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2481, col: 22, offset: 79760},
+																pos: position{line: 2482, col: 22, offset: 79848},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2486, col: 31, offset: 79981},
+																		pos:        position{line: 2487, col: 31, offset: 80069},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2486, col: 36, offset: 79986},
+																		pos: position{line: 2487, col: 36, offset: 80074},
 																		expr: &litMatcher{
-																			pos:        position{line: 2486, col: 37, offset: 79987},
+																			pos:        position{line: 2487, col: 37, offset: 80075},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2481, col: 49, offset: 79787},
+																		pos:   position{line: 2482, col: 49, offset: 79875},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2820, col: 13, offset: 89372},
+																			pos: position{line: 2821, col: 13, offset: 89460},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2820, col: 13, offset: 89372},
+																				pos: position{line: 2821, col: 13, offset: 89460},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 13, offset: 89372},
+																					pos:        position{line: 2821, col: 13, offset: 89460},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39655,28 +39823,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39685,9 +39853,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -39696,21 +39864,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1785, col: 5, offset: 57667},
+															pos: position{line: 1786, col: 5, offset: 57699},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1785, col: 5, offset: 57667},
+																pos: position{line: 1786, col: 5, offset: 57699},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1785, col: 5, offset: 57667},
+																		pos:   position{line: 1786, col: 5, offset: 57699},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2824, col: 14, offset: 89439},
+																			pos: position{line: 2825, col: 14, offset: 89527},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2824, col: 14, offset: 89439},
+																				pos: position{line: 2825, col: 14, offset: 89527},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2824, col: 14, offset: 89439},
+																					pos:        position{line: 2825, col: 14, offset: 89527},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39720,32 +39888,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1786, col: 5, offset: 57691},
+																		pos: position{line: 1787, col: 5, offset: 57723},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2896, col: 8, offset: 91244},
+																		pos: position{line: 2897, col: 8, offset: 91332},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39754,9 +39922,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2893, col: 8, offset: 91194},
+																				pos: position{line: 2894, col: 8, offset: 91282},
 																				expr: &anyMatcher{
-																					line: 2893, col: 9, offset: 91195,
+																					line: 2894, col: 9, offset: 91283,
 																				},
 																			},
 																		},
@@ -39778,16 +39946,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1796, col: 1, offset: 58177},
+			pos:  position{line: 1797, col: 1, offset: 58209},
 			expr: &choiceExpr{
-				pos: position{line: 1796, col: 15, offset: 58191},
+				pos: position{line: 1797, col: 15, offset: 58223},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1796, col: 15, offset: 58191},
+						pos:  position{line: 1797, col: 15, offset: 58223},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1796, col: 35, offset: 58211},
+						pos:  position{line: 1797, col: 35, offset: 58243},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39795,65 +39963,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1798, col: 1, offset: 58232},
+			pos:  position{line: 1799, col: 1, offset: 58264},
 			expr: &actionExpr{
-				pos: position{line: 1799, col: 5, offset: 58257},
+				pos: position{line: 1800, col: 5, offset: 58289},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1799, col: 5, offset: 58257},
+					pos: position{line: 1800, col: 5, offset: 58289},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1799, col: 5, offset: 58257},
+							pos:   position{line: 1800, col: 5, offset: 58289},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1799, col: 16, offset: 58268},
+								pos: position{line: 1800, col: 16, offset: 58300},
 								expr: &actionExpr{
-									pos: position{line: 1799, col: 17, offset: 58269},
+									pos: position{line: 1800, col: 17, offset: 58301},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1799, col: 17, offset: 58269},
+										pos:  position{line: 1800, col: 17, offset: 58301},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1802, col: 5, offset: 58337},
+							pos: position{line: 1803, col: 5, offset: 58369},
 							expr: &litMatcher{
-								pos:        position{line: 1802, col: 7, offset: 58339},
+								pos:        position{line: 1803, col: 7, offset: 58371},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58348},
+							pos:   position{line: 1804, col: 5, offset: 58380},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1804, col: 9, offset: 58366},
+								pos: position{line: 1805, col: 9, offset: 58398},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 9, offset: 58366},
+										pos:  position{line: 1805, col: 9, offset: 58398},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58393},
+										pos:  position{line: 1806, col: 11, offset: 58425},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58421},
+										pos:  position{line: 1807, col: 11, offset: 58453},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58452},
+										pos:  position{line: 1808, col: 11, offset: 58484},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58480},
+										pos:  position{line: 1809, col: 11, offset: 58512},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1809, col: 11, offset: 58511},
+										pos:  position{line: 1810, col: 11, offset: 58543},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39865,36 +40033,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1814, col: 1, offset: 58631},
+			pos:  position{line: 1815, col: 1, offset: 58663},
 			expr: &actionExpr{
-				pos: position{line: 1815, col: 5, offset: 58673},
+				pos: position{line: 1816, col: 5, offset: 58705},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1815, col: 5, offset: 58673},
+					pos: position{line: 1816, col: 5, offset: 58705},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58673},
+							pos:   position{line: 1816, col: 5, offset: 58705},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1815, col: 16, offset: 58684},
+								pos: position{line: 1816, col: 16, offset: 58716},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1815, col: 17, offset: 58685},
+									pos:  position{line: 1816, col: 17, offset: 58717},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1816, col: 5, offset: 58710},
+							pos:   position{line: 1817, col: 5, offset: 58742},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1816, col: 14, offset: 58719},
+								pos: position{line: 1817, col: 14, offset: 58751},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 14, offset: 58719},
+										pos:  position{line: 1817, col: 14, offset: 58751},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 33, offset: 58738},
+										pos:  position{line: 1817, col: 33, offset: 58770},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39906,32 +40074,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 58969},
+			pos:  position{line: 1825, col: 1, offset: 59001},
 			expr: &choiceExpr{
-				pos: position{line: 1825, col: 5, offset: 58994},
+				pos: position{line: 1826, col: 5, offset: 59026},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 5, offset: 58994},
+						pos:  position{line: 1826, col: 5, offset: 59026},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 59021},
+						pos:  position{line: 1827, col: 7, offset: 59053},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59049},
+						pos:  position{line: 1828, col: 7, offset: 59081},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59081},
+						pos:  position{line: 1829, col: 7, offset: 59113},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59109},
+						pos:  position{line: 1830, col: 7, offset: 59141},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1830, col: 7, offset: 59130},
+						pos:  position{line: 1831, col: 7, offset: 59162},
 						name: "SuperscriptText",
 					},
 				},
@@ -39939,24 +40107,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1832, col: 1, offset: 59148},
+			pos:  position{line: 1833, col: 1, offset: 59180},
 			expr: &choiceExpr{
-				pos: position{line: 1833, col: 5, offset: 59173},
+				pos: position{line: 1834, col: 5, offset: 59205},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 5, offset: 59173},
+						pos:  position{line: 1834, col: 5, offset: 59205},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59199},
+						pos:  position{line: 1835, col: 7, offset: 59231},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59227},
+						pos:  position{line: 1836, col: 7, offset: 59259},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59258},
+						pos:  position{line: 1837, col: 7, offset: 59290},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -39964,26 +40132,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1850, col: 1, offset: 59612},
+			pos:  position{line: 1851, col: 1, offset: 59644},
 			expr: &choiceExpr{
-				pos: position{line: 1851, col: 5, offset: 59638},
+				pos: position{line: 1852, col: 5, offset: 59670},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2773, col: 5, offset: 88088},
+						pos: position{line: 2774, col: 5, offset: 88176},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2773, col: 5, offset: 88088},
+							pos: position{line: 2774, col: 5, offset: 88176},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2773, col: 5, offset: 88088},
+									pos:   position{line: 2774, col: 5, offset: 88176},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2773, col: 11, offset: 88094},
+										pos: position{line: 2774, col: 11, offset: 88182},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2773, col: 11, offset: 88094},
+											pos: position{line: 2774, col: 11, offset: 88182},
 											expr: &charClassMatcher{
-												pos:        position{line: 2773, col: 11, offset: 88094},
+												pos:        position{line: 2774, col: 11, offset: 88182},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39993,36 +40161,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2776, col: 5, offset: 88152},
+									pos: position{line: 2777, col: 5, offset: 88240},
 									expr: &seqExpr{
-										pos: position{line: 2777, col: 9, offset: 88163},
+										pos: position{line: 2778, col: 9, offset: 88251},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2777, col: 9, offset: 88163},
+												pos:        position{line: 2778, col: 9, offset: 88251},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2778, col: 9, offset: 88212},
+												pos: position{line: 2779, col: 9, offset: 88300},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2782, col: 5, offset: 88292},
+									pos: position{line: 2783, col: 5, offset: 88380},
 									expr: &seqExpr{
-										pos: position{line: 2783, col: 9, offset: 88303},
+										pos: position{line: 2784, col: 9, offset: 88391},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2783, col: 9, offset: 88303},
+												pos:        position{line: 2784, col: 9, offset: 88391},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2783, col: 13, offset: 88307},
+												pos:        position{line: 2784, col: 13, offset: 88395},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40035,12 +40203,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2878, col: 11, offset: 90907},
+						pos: position{line: 2879, col: 11, offset: 90995},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2878, col: 11, offset: 90907},
+							pos: position{line: 2879, col: 11, offset: 90995},
 							expr: &charClassMatcher{
-								pos:        position{line: 2878, col: 11, offset: 90907},
+								pos:        position{line: 2879, col: 11, offset: 90995},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40049,29 +40217,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 59701},
+						pos:  position{line: 1854, col: 7, offset: 59733},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80477},
+						pos: position{line: 2500, col: 5, offset: 80565},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80477},
+							pos: position{line: 2500, col: 5, offset: 80565},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2499, col: 5, offset: 80477},
+									pos: position{line: 2500, col: 5, offset: 80565},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2502, col: 5, offset: 80548},
+									pos:        position{line: 2503, col: 5, offset: 80636},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2502, col: 10, offset: 80553},
+									pos: position{line: 2503, col: 10, offset: 80641},
 									expr: &charClassMatcher{
-										pos:        position{line: 2502, col: 11, offset: 80554},
+										pos:        position{line: 2503, col: 11, offset: 80642},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40082,29 +40250,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2508, col: 5, offset: 80746},
+						pos: position{line: 2509, col: 5, offset: 80834},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2508, col: 5, offset: 80746},
+							pos: position{line: 2509, col: 5, offset: 80834},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2508, col: 5, offset: 80746},
+									pos: position{line: 2509, col: 5, offset: 80834},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2511, col: 5, offset: 80817},
+									pos: position{line: 2512, col: 5, offset: 80905},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80942},
+									pos:        position{line: 2516, col: 5, offset: 81030},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2515, col: 9, offset: 80946},
+									pos: position{line: 2516, col: 9, offset: 81034},
 									expr: &charClassMatcher{
-										pos:        position{line: 2515, col: 10, offset: 80947},
+										pos:        position{line: 2516, col: 10, offset: 81035},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40115,27 +40283,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2791, col: 5, offset: 88500},
+						pos: position{line: 2792, col: 5, offset: 88588},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2792, col: 9, offset: 88510},
+							pos: position{line: 2793, col: 9, offset: 88598},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2792, col: 10, offset: 88511},
+									pos:        position{line: 2793, col: 10, offset: 88599},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2794, col: 13, offset: 88608},
+									pos: position{line: 2795, col: 13, offset: 88696},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2794, col: 13, offset: 88608},
+											pos: position{line: 2795, col: 13, offset: 88696},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2797, col: 13, offset: 88708},
+											pos:        position{line: 2798, col: 13, offset: 88796},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40143,20 +40311,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2797, col: 19, offset: 88714},
+									pos:        position{line: 2798, col: 19, offset: 88802},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2800, col: 13, offset: 88752},
+									pos: position{line: 2801, col: 13, offset: 88840},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2800, col: 13, offset: 88752},
+											pos: position{line: 2801, col: 13, offset: 88840},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2803, col: 14, offset: 88845},
+											pos:        position{line: 2804, col: 14, offset: 88933},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40165,18 +40333,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2805, col: 12, offset: 88889},
+									pos: position{line: 2806, col: 12, offset: 88977},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2805, col: 12, offset: 88889},
+											pos:        position{line: 2806, col: 12, offset: 88977},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2805, col: 16, offset: 88893},
+											pos: position{line: 2806, col: 16, offset: 88981},
 											expr: &litMatcher{
-												pos:        position{line: 2805, col: 17, offset: 88894},
+												pos:        position{line: 2806, col: 17, offset: 88982},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40534,31 +40702,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2887, col: 18, offset: 91117},
+						pos: position{line: 2888, col: 18, offset: 91205},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2887, col: 18, offset: 91117},
+							pos: position{line: 2888, col: 18, offset: 91205},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40567,27 +40735,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 26, offset: 91125},
+									pos: position{line: 2888, col: 26, offset: 91213},
 									expr: &actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91017},
+										pos: position{line: 2884, col: 12, offset: 91105},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2883, col: 13, offset: 91018},
+											pos: position{line: 2884, col: 13, offset: 91106},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2883, col: 13, offset: 91018},
+													pos:        position{line: 2884, col: 13, offset: 91106},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 20, offset: 91025},
+													pos:        position{line: 2884, col: 20, offset: 91113},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 29, offset: 91034},
+													pos:        position{line: 2884, col: 29, offset: 91122},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40600,31 +40768,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59868},
+						pos:  position{line: 1859, col: 7, offset: 59900},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 59915},
+						pos:  position{line: 1860, col: 7, offset: 59947},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2468, col: 5, offset: 79306},
+						pos: position{line: 2469, col: 5, offset: 79394},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2468, col: 5, offset: 79306},
+							pos: position{line: 2469, col: 5, offset: 79394},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2468, col: 5, offset: 79306},
+									pos: position{line: 2469, col: 5, offset: 79394},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2471, col: 5, offset: 79382},
+									pos:   position{line: 2472, col: 5, offset: 79470},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2472, col: 9, offset: 79400},
+										pos: position{line: 2473, col: 9, offset: 79488},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2472, col: 10, offset: 79401},
+											pos:        position{line: 2473, col: 10, offset: 79489},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40675,10 +40843,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2813, col: 12, offset: 89154},
+						pos: position{line: 2814, col: 12, offset: 89242},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2813, col: 12, offset: 89154},
+							pos:        position{line: 2814, col: 12, offset: 89242},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40690,29 +40858,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1877, col: 1, offset: 60385},
+			pos:  position{line: 1878, col: 1, offset: 60417},
 			expr: &actionExpr{
-				pos: position{line: 1878, col: 5, offset: 60413},
+				pos: position{line: 1879, col: 5, offset: 60445},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1878, col: 5, offset: 60413},
+					pos: position{line: 1879, col: 5, offset: 60445},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1873, col: 38, offset: 60338},
+							pos:        position{line: 1874, col: 38, offset: 60370},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1879, col: 5, offset: 60452},
+							pos:   position{line: 1880, col: 5, offset: 60484},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1879, col: 15, offset: 60462},
+								pos:  position{line: 1880, col: 15, offset: 60494},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1875, col: 36, offset: 60379},
+							pos:        position{line: 1876, col: 36, offset: 60411},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40723,44 +40891,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1884, col: 1, offset: 60622},
+			pos:  position{line: 1885, col: 1, offset: 60654},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1884, col: 32, offset: 60653},
+				pos: position{line: 1885, col: 32, offset: 60685},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1884, col: 32, offset: 60653},
+					pos:  position{line: 1885, col: 32, offset: 60685},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1886, col: 1, offset: 60684},
+			pos:  position{line: 1887, col: 1, offset: 60716},
 			expr: &actionExpr{
-				pos: position{line: 1887, col: 5, offset: 60719},
+				pos: position{line: 1888, col: 5, offset: 60751},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1887, col: 5, offset: 60719},
+					pos: position{line: 1888, col: 5, offset: 60751},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1888, col: 5, offset: 60730},
+							pos: position{line: 1889, col: 5, offset: 60762},
 							expr: &litMatcher{
-								pos:        position{line: 1875, col: 36, offset: 60379},
+								pos:        position{line: 1876, col: 36, offset: 60411},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1889, col: 5, offset: 60767},
+							pos:   position{line: 1890, col: 5, offset: 60799},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1889, col: 14, offset: 60776},
+								pos:  position{line: 1890, col: 14, offset: 60808},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40770,29 +40938,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1914, col: 1, offset: 61456},
+			pos:  position{line: 1915, col: 1, offset: 61488},
 			expr: &actionExpr{
-				pos: position{line: 1915, col: 5, offset: 61484},
+				pos: position{line: 1916, col: 5, offset: 61516},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1915, col: 5, offset: 61484},
+					pos: position{line: 1916, col: 5, offset: 61516},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1898, col: 5, offset: 61010},
+							pos:        position{line: 1899, col: 5, offset: 61042},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1899, col: 5, offset: 61019},
+							pos: position{line: 1900, col: 5, offset: 61051},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1903, col: 5, offset: 61137},
+							pos: position{line: 1904, col: 5, offset: 61169},
 							expr: &notExpr{
-								pos: position{line: 1903, col: 7, offset: 61139},
+								pos: position{line: 1904, col: 7, offset: 61171},
 								expr: &litMatcher{
-									pos:        position{line: 1903, col: 8, offset: 61140},
+									pos:        position{line: 1904, col: 8, offset: 61172},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40800,38 +40968,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1916, col: 5, offset: 61522},
+							pos:   position{line: 1917, col: 5, offset: 61554},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1916, col: 15, offset: 61532},
+								pos:  position{line: 1917, col: 15, offset: 61564},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1906, col: 5, offset: 61260},
+							pos:        position{line: 1907, col: 5, offset: 61292},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1907, col: 5, offset: 61269},
+							pos: position{line: 1908, col: 5, offset: 61301},
 							expr: &litMatcher{
-								pos:        position{line: 1907, col: 6, offset: 61270},
+								pos:        position{line: 1908, col: 6, offset: 61302},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1908, col: 5, offset: 61333},
+							pos: position{line: 1909, col: 5, offset: 61365},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1912, col: 5, offset: 61442},
+							pos: position{line: 1913, col: 5, offset: 61474},
 							expr: &notExpr{
-								pos: position{line: 1912, col: 7, offset: 61444},
+								pos: position{line: 1913, col: 7, offset: 61476},
 								expr: &charClassMatcher{
-									pos:        position{line: 2764, col: 13, offset: 87941},
+									pos:        position{line: 2765, col: 13, offset: 88029},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40845,20 +41013,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1921, col: 1, offset: 61692},
+			pos:  position{line: 1922, col: 1, offset: 61724},
 			expr: &actionExpr{
-				pos: position{line: 1922, col: 5, offset: 61729},
+				pos: position{line: 1923, col: 5, offset: 61761},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1922, col: 5, offset: 61729},
+					pos: position{line: 1923, col: 5, offset: 61761},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1922, col: 5, offset: 61729},
+							pos: position{line: 1923, col: 5, offset: 61761},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40867,18 +41035,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1923, col: 5, offset: 61768},
+							pos:   position{line: 1924, col: 5, offset: 61800},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1923, col: 14, offset: 61777},
+								pos: position{line: 1924, col: 14, offset: 61809},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1923, col: 15, offset: 61778},
+									pos:  position{line: 1924, col: 15, offset: 61810},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1924, col: 5, offset: 61812},
+							pos: position{line: 1925, col: 5, offset: 61844},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40887,49 +41055,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1930, col: 1, offset: 61953},
+			pos:  position{line: 1931, col: 1, offset: 61985},
 			expr: &actionExpr{
-				pos: position{line: 1931, col: 5, offset: 61988},
+				pos: position{line: 1932, col: 5, offset: 62020},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1931, col: 5, offset: 61988},
+					pos: position{line: 1932, col: 5, offset: 62020},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1932, col: 5, offset: 62016},
+							pos: position{line: 1933, col: 5, offset: 62048},
 							expr: &seqExpr{
-								pos: position{line: 1906, col: 5, offset: 61260},
+								pos: position{line: 1907, col: 5, offset: 61292},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1906, col: 5, offset: 61260},
+										pos:        position{line: 1907, col: 5, offset: 61292},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1907, col: 5, offset: 61269},
+										pos: position{line: 1908, col: 5, offset: 61301},
 										expr: &litMatcher{
-											pos:        position{line: 1907, col: 6, offset: 61270},
+											pos:        position{line: 1908, col: 6, offset: 61302},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1908, col: 5, offset: 61333},
+										pos: position{line: 1909, col: 5, offset: 61365},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1912, col: 5, offset: 61442},
+										pos: position{line: 1913, col: 5, offset: 61474},
 										expr: &notExpr{
-											pos: position{line: 1912, col: 7, offset: 61444},
+											pos: position{line: 1913, col: 7, offset: 61476},
 											expr: &charClassMatcher{
-												pos:        position{line: 2764, col: 13, offset: 87941},
+												pos:        position{line: 2765, col: 13, offset: 88029},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40941,10 +41109,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62053},
+							pos:   position{line: 1934, col: 5, offset: 62085},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1933, col: 14, offset: 62062},
+								pos:  position{line: 1934, col: 14, offset: 62094},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40954,35 +41122,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1938, col: 1, offset: 62150},
+			pos:  position{line: 1939, col: 1, offset: 62182},
 			expr: &choiceExpr{
-				pos: position{line: 1940, col: 5, offset: 62211},
+				pos: position{line: 1941, col: 5, offset: 62243},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1940, col: 5, offset: 62211},
+						pos: position{line: 1941, col: 5, offset: 62243},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1940, col: 5, offset: 62211},
+							pos: position{line: 1941, col: 5, offset: 62243},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1940, col: 5, offset: 62211},
+									pos:   position{line: 1941, col: 5, offset: 62243},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59558},
+										pos: position{line: 1847, col: 25, offset: 59590},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59558},
+											pos: position{line: 1847, col: 25, offset: 59590},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59558},
+													pos:        position{line: 1847, col: 25, offset: 59590},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59563},
+													pos: position{line: 1847, col: 30, offset: 59595},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59563},
+														pos:        position{line: 1847, col: 30, offset: 59595},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -40993,21 +41161,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1940, col: 40, offset: 62246},
+									pos:        position{line: 1941, col: 40, offset: 62278},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1940, col: 45, offset: 62251},
+									pos:   position{line: 1941, col: 45, offset: 62283},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1940, col: 55, offset: 62261},
+										pos:  position{line: 1941, col: 55, offset: 62293},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1940, col: 84, offset: 62290},
+									pos:        position{line: 1941, col: 84, offset: 62322},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41016,21 +41184,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1944, col: 7, offset: 62454},
+						pos: position{line: 1945, col: 7, offset: 62486},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1944, col: 7, offset: 62454},
+							pos: position{line: 1945, col: 7, offset: 62486},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1944, col: 7, offset: 62454},
+									pos:   position{line: 1945, col: 7, offset: 62486},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41039,21 +41207,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1944, col: 42, offset: 62489},
+									pos:        position{line: 1945, col: 42, offset: 62521},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1944, col: 47, offset: 62494},
+									pos:   position{line: 1945, col: 47, offset: 62526},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1944, col: 57, offset: 62504},
+										pos:  position{line: 1945, col: 57, offset: 62536},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1944, col: 86, offset: 62533},
+									pos:        position{line: 1945, col: 86, offset: 62565},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41062,21 +41230,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1949, col: 7, offset: 62735},
+						pos: position{line: 1950, col: 7, offset: 62767},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1949, col: 7, offset: 62735},
+							pos: position{line: 1950, col: 7, offset: 62767},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1949, col: 7, offset: 62735},
+									pos:   position{line: 1950, col: 7, offset: 62767},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41085,21 +41253,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1949, col: 42, offset: 62770},
+									pos:        position{line: 1950, col: 42, offset: 62802},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1949, col: 46, offset: 62774},
+									pos:   position{line: 1950, col: 46, offset: 62806},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1949, col: 56, offset: 62784},
+										pos:  position{line: 1950, col: 56, offset: 62816},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1949, col: 85, offset: 62813},
+									pos:        position{line: 1950, col: 85, offset: 62845},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41112,29 +41280,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1966, col: 1, offset: 63293},
+			pos:  position{line: 1967, col: 1, offset: 63325},
 			expr: &actionExpr{
-				pos: position{line: 1967, col: 5, offset: 63323},
+				pos: position{line: 1968, col: 5, offset: 63355},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1967, col: 5, offset: 63323},
+					pos: position{line: 1968, col: 5, offset: 63355},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1962, col: 40, offset: 63244},
+							pos:        position{line: 1963, col: 40, offset: 63276},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1968, col: 5, offset: 63364},
+							pos:   position{line: 1969, col: 5, offset: 63396},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1968, col: 15, offset: 63374},
+								pos:  position{line: 1969, col: 15, offset: 63406},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1964, col: 38, offset: 63287},
+							pos:        position{line: 1965, col: 38, offset: 63319},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41145,44 +41313,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1973, col: 1, offset: 63539},
+			pos:  position{line: 1974, col: 1, offset: 63571},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1973, col: 34, offset: 63572},
+				pos: position{line: 1974, col: 34, offset: 63604},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1973, col: 34, offset: 63572},
+					pos:  position{line: 1974, col: 34, offset: 63604},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1975, col: 1, offset: 63604},
+			pos:  position{line: 1976, col: 1, offset: 63636},
 			expr: &actionExpr{
-				pos: position{line: 1976, col: 5, offset: 63641},
+				pos: position{line: 1977, col: 5, offset: 63673},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1976, col: 5, offset: 63641},
+					pos: position{line: 1977, col: 5, offset: 63673},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1977, col: 5, offset: 63652},
+							pos: position{line: 1978, col: 5, offset: 63684},
 							expr: &litMatcher{
-								pos:        position{line: 1964, col: 38, offset: 63287},
+								pos:        position{line: 1965, col: 38, offset: 63319},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1978, col: 5, offset: 63691},
+							pos:   position{line: 1979, col: 5, offset: 63723},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1978, col: 14, offset: 63700},
+								pos:  position{line: 1979, col: 14, offset: 63732},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41192,29 +41360,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2004, col: 1, offset: 64384},
+			pos:  position{line: 2005, col: 1, offset: 64416},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64414},
+				pos: position{line: 2006, col: 5, offset: 64446},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64414},
+					pos: position{line: 2006, col: 5, offset: 64446},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1987, col: 5, offset: 63942},
+							pos:        position{line: 1988, col: 5, offset: 63974},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1988, col: 5, offset: 63951},
+							pos: position{line: 1989, col: 5, offset: 63983},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1992, col: 5, offset: 64071},
+							pos: position{line: 1993, col: 5, offset: 64103},
 							expr: &notExpr{
-								pos: position{line: 1992, col: 7, offset: 64073},
+								pos: position{line: 1993, col: 7, offset: 64105},
 								expr: &litMatcher{
-									pos:        position{line: 1992, col: 8, offset: 64074},
+									pos:        position{line: 1993, col: 8, offset: 64106},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41222,38 +41390,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2006, col: 5, offset: 64454},
+							pos:   position{line: 2007, col: 5, offset: 64486},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2006, col: 15, offset: 64464},
+								pos:  position{line: 2007, col: 15, offset: 64496},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1996, col: 5, offset: 64184},
+							pos:        position{line: 1997, col: 5, offset: 64216},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1997, col: 5, offset: 64193},
+							pos: position{line: 1998, col: 5, offset: 64225},
 							expr: &litMatcher{
-								pos:        position{line: 1997, col: 6, offset: 64194},
+								pos:        position{line: 1998, col: 6, offset: 64226},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1998, col: 5, offset: 64259},
+							pos: position{line: 1999, col: 5, offset: 64291},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2002, col: 5, offset: 64370},
+							pos: position{line: 2003, col: 5, offset: 64402},
 							expr: &notExpr{
-								pos: position{line: 2002, col: 7, offset: 64372},
+								pos: position{line: 2003, col: 7, offset: 64404},
 								expr: &charClassMatcher{
-									pos:        position{line: 2764, col: 13, offset: 87941},
+									pos:        position{line: 2765, col: 13, offset: 88029},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41267,20 +41435,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2011, col: 1, offset: 64631},
+			pos:  position{line: 2012, col: 1, offset: 64663},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64669},
+				pos: position{line: 2013, col: 5, offset: 64701},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64669},
+					pos: position{line: 2013, col: 5, offset: 64701},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2012, col: 5, offset: 64669},
+							pos: position{line: 2013, col: 5, offset: 64701},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41289,18 +41457,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64708},
+							pos:   position{line: 2014, col: 5, offset: 64740},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2013, col: 14, offset: 64717},
+								pos: position{line: 2014, col: 14, offset: 64749},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2013, col: 15, offset: 64718},
+									pos:  position{line: 2014, col: 15, offset: 64750},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2014, col: 5, offset: 64753},
+							pos: position{line: 2015, col: 5, offset: 64785},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41309,49 +41477,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 64894},
+			pos:  position{line: 2021, col: 1, offset: 64926},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 64931},
+				pos: position{line: 2022, col: 5, offset: 64963},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 64931},
+					pos: position{line: 2022, col: 5, offset: 64963},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 64942},
+							pos: position{line: 2023, col: 5, offset: 64974},
 							expr: &seqExpr{
-								pos: position{line: 1996, col: 5, offset: 64184},
+								pos: position{line: 1997, col: 5, offset: 64216},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1996, col: 5, offset: 64184},
+										pos:        position{line: 1997, col: 5, offset: 64216},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1997, col: 5, offset: 64193},
+										pos: position{line: 1998, col: 5, offset: 64225},
 										expr: &litMatcher{
-											pos:        position{line: 1997, col: 6, offset: 64194},
+											pos:        position{line: 1998, col: 6, offset: 64226},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1998, col: 5, offset: 64259},
+										pos: position{line: 1999, col: 5, offset: 64291},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2002, col: 5, offset: 64370},
+										pos: position{line: 2003, col: 5, offset: 64402},
 										expr: &notExpr{
-											pos: position{line: 2002, col: 7, offset: 64372},
+											pos: position{line: 2003, col: 7, offset: 64404},
 											expr: &charClassMatcher{
-												pos:        position{line: 2764, col: 13, offset: 87941},
+												pos:        position{line: 2765, col: 13, offset: 88029},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41363,10 +41531,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 64981},
+							pos:   position{line: 2024, col: 5, offset: 65013},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 64990},
+								pos:  position{line: 2024, col: 14, offset: 65022},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41376,35 +41544,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2028, col: 1, offset: 65078},
+			pos:  position{line: 2029, col: 1, offset: 65110},
 			expr: &choiceExpr{
-				pos: position{line: 2030, col: 5, offset: 65143},
+				pos: position{line: 2031, col: 5, offset: 65175},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2030, col: 5, offset: 65143},
+						pos: position{line: 2031, col: 5, offset: 65175},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2030, col: 5, offset: 65143},
+							pos: position{line: 2031, col: 5, offset: 65175},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2030, col: 5, offset: 65143},
+									pos:   position{line: 2031, col: 5, offset: 65175},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59558},
+										pos: position{line: 1847, col: 25, offset: 59590},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59558},
+											pos: position{line: 1847, col: 25, offset: 59590},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59558},
+													pos:        position{line: 1847, col: 25, offset: 59590},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59563},
+													pos: position{line: 1847, col: 30, offset: 59595},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59563},
+														pos:        position{line: 1847, col: 30, offset: 59595},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41415,21 +41583,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2030, col: 40, offset: 65178},
+									pos:        position{line: 2031, col: 40, offset: 65210},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2030, col: 45, offset: 65183},
+									pos:   position{line: 2031, col: 45, offset: 65215},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2030, col: 55, offset: 65193},
+										pos:  position{line: 2031, col: 55, offset: 65225},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2030, col: 86, offset: 65224},
+									pos:        position{line: 2031, col: 86, offset: 65256},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41438,21 +41606,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2034, col: 7, offset: 65389},
+						pos: position{line: 2035, col: 7, offset: 65421},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2034, col: 7, offset: 65389},
+							pos: position{line: 2035, col: 7, offset: 65421},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2034, col: 7, offset: 65389},
+									pos:   position{line: 2035, col: 7, offset: 65421},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41461,21 +41629,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2034, col: 42, offset: 65424},
+									pos:        position{line: 2035, col: 42, offset: 65456},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2034, col: 47, offset: 65429},
+									pos:   position{line: 2035, col: 47, offset: 65461},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2034, col: 57, offset: 65439},
+										pos:  position{line: 2035, col: 57, offset: 65471},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2034, col: 88, offset: 65470},
+									pos:        position{line: 2035, col: 88, offset: 65502},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41484,21 +41652,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2039, col: 7, offset: 65711},
+						pos: position{line: 2040, col: 7, offset: 65743},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2039, col: 7, offset: 65711},
+							pos: position{line: 2040, col: 7, offset: 65743},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2039, col: 7, offset: 65711},
+									pos:   position{line: 2040, col: 7, offset: 65743},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41507,21 +41675,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2039, col: 42, offset: 65746},
+									pos:        position{line: 2040, col: 42, offset: 65778},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2039, col: 46, offset: 65750},
+									pos:   position{line: 2040, col: 46, offset: 65782},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2039, col: 56, offset: 65760},
+										pos:  position{line: 2040, col: 56, offset: 65792},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2039, col: 87, offset: 65791},
+									pos:        position{line: 2040, col: 87, offset: 65823},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41534,29 +41702,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2056, col: 1, offset: 66355},
+			pos:  position{line: 2057, col: 1, offset: 66387},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66388},
+				pos: position{line: 2058, col: 5, offset: 66420},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66388},
+					pos: position{line: 2058, col: 5, offset: 66420},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2052, col: 43, offset: 66303},
+							pos:        position{line: 2053, col: 43, offset: 66335},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66432},
+							pos:   position{line: 2059, col: 5, offset: 66464},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2058, col: 15, offset: 66442},
+								pos:  position{line: 2059, col: 15, offset: 66474},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2054, col: 41, offset: 66349},
+							pos:        position{line: 2055, col: 41, offset: 66381},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41567,44 +41735,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2063, col: 1, offset: 66617},
+			pos:  position{line: 2064, col: 1, offset: 66649},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2063, col: 37, offset: 66653},
+				pos: position{line: 2064, col: 37, offset: 66685},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2063, col: 37, offset: 66653},
+					pos:  position{line: 2064, col: 37, offset: 66685},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66720},
+			pos:  position{line: 2066, col: 1, offset: 66752},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66760},
+				pos: position{line: 2067, col: 5, offset: 66792},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66760},
+					pos: position{line: 2067, col: 5, offset: 66792},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66771},
+							pos: position{line: 2068, col: 5, offset: 66803},
 							expr: &litMatcher{
-								pos:        position{line: 2054, col: 41, offset: 66349},
+								pos:        position{line: 2055, col: 41, offset: 66381},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66813},
+							pos:   position{line: 2069, col: 5, offset: 66845},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66822},
+								pos:  position{line: 2069, col: 14, offset: 66854},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41614,33 +41782,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2086, col: 1, offset: 67364},
+			pos:  position{line: 2087, col: 1, offset: 67396},
 			expr: &seqExpr{
-				pos: position{line: 2087, col: 5, offset: 67409},
+				pos: position{line: 2088, col: 5, offset: 67441},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2087, col: 5, offset: 67409},
+						pos: position{line: 2088, col: 5, offset: 67441},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2087, col: 6, offset: 67410},
+							pos:  position{line: 2088, col: 6, offset: 67442},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2088, col: 5, offset: 67429},
+						pos:        position{line: 2089, col: 5, offset: 67461},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2089, col: 5, offset: 67437},
+						pos: position{line: 2090, col: 5, offset: 67469},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2093, col: 5, offset: 67551},
+						pos: position{line: 2094, col: 5, offset: 67583},
 						expr: &notExpr{
-							pos: position{line: 2093, col: 7, offset: 67553},
+							pos: position{line: 2094, col: 7, offset: 67585},
 							expr: &charClassMatcher{
-								pos:        position{line: 2764, col: 13, offset: 87941},
+								pos:        position{line: 2765, col: 13, offset: 88029},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41653,29 +41821,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2096, col: 1, offset: 67570},
+			pos:  position{line: 2097, col: 1, offset: 67602},
 			expr: &actionExpr{
-				pos: position{line: 2097, col: 5, offset: 67603},
+				pos: position{line: 2098, col: 5, offset: 67635},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2097, col: 5, offset: 67603},
+					pos: position{line: 2098, col: 5, offset: 67635},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2079, col: 5, offset: 67166},
+							pos:        position{line: 2080, col: 5, offset: 67198},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2080, col: 5, offset: 67175},
+							pos: position{line: 2081, col: 5, offset: 67207},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2084, col: 5, offset: 67298},
+							pos: position{line: 2085, col: 5, offset: 67330},
 							expr: &notExpr{
-								pos: position{line: 2084, col: 7, offset: 67300},
+								pos: position{line: 2085, col: 7, offset: 67332},
 								expr: &litMatcher{
-									pos:        position{line: 2084, col: 8, offset: 67301},
+									pos:        position{line: 2085, col: 8, offset: 67333},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41683,15 +41851,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2098, col: 5, offset: 67647},
+							pos:   position{line: 2099, col: 5, offset: 67679},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2098, col: 15, offset: 67657},
+								pos:  position{line: 2099, col: 15, offset: 67689},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2099, col: 5, offset: 67696},
+							pos:  position{line: 2100, col: 5, offset: 67728},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41700,20 +41868,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2103, col: 1, offset: 67833},
+			pos:  position{line: 2104, col: 1, offset: 67865},
 			expr: &actionExpr{
-				pos: position{line: 2104, col: 5, offset: 67874},
+				pos: position{line: 2105, col: 5, offset: 67906},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2104, col: 5, offset: 67874},
+					pos: position{line: 2105, col: 5, offset: 67906},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2104, col: 5, offset: 67874},
+							pos: position{line: 2105, col: 5, offset: 67906},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41722,18 +41890,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2105, col: 5, offset: 67913},
+							pos:   position{line: 2106, col: 5, offset: 67945},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2105, col: 14, offset: 67922},
+								pos: position{line: 2106, col: 14, offset: 67954},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2105, col: 15, offset: 67923},
+									pos:  position{line: 2106, col: 15, offset: 67955},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2106, col: 5, offset: 67961},
+							pos: position{line: 2107, col: 5, offset: 67993},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41742,31 +41910,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2112, col: 1, offset: 68102},
+			pos:  position{line: 2113, col: 1, offset: 68134},
 			expr: &actionExpr{
-				pos: position{line: 2113, col: 5, offset: 68142},
+				pos: position{line: 2114, col: 5, offset: 68174},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2113, col: 5, offset: 68142},
+					pos: position{line: 2114, col: 5, offset: 68174},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2114, col: 5, offset: 68153},
+							pos: position{line: 2115, col: 5, offset: 68185},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 6, offset: 68154},
+								pos:  position{line: 2115, col: 6, offset: 68186},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2115, col: 5, offset: 68195},
+							pos:   position{line: 2116, col: 5, offset: 68227},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2115, col: 14, offset: 68204},
+								pos:  position{line: 2116, col: 14, offset: 68236},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41776,35 +41944,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2120, col: 1, offset: 68292},
+			pos:  position{line: 2121, col: 1, offset: 68324},
 			expr: &choiceExpr{
-				pos: position{line: 2122, col: 5, offset: 68363},
+				pos: position{line: 2123, col: 5, offset: 68395},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2122, col: 5, offset: 68363},
+						pos: position{line: 2123, col: 5, offset: 68395},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2122, col: 5, offset: 68363},
+							pos: position{line: 2123, col: 5, offset: 68395},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2122, col: 5, offset: 68363},
+									pos:   position{line: 2123, col: 5, offset: 68395},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59558},
+										pos: position{line: 1847, col: 25, offset: 59590},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59558},
+											pos: position{line: 1847, col: 25, offset: 59590},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59558},
+													pos:        position{line: 1847, col: 25, offset: 59590},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59563},
+													pos: position{line: 1847, col: 30, offset: 59595},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59563},
+														pos:        position{line: 1847, col: 30, offset: 59595},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41815,21 +41983,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2122, col: 40, offset: 68398},
+									pos:        position{line: 2123, col: 40, offset: 68430},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2122, col: 45, offset: 68403},
+									pos:   position{line: 2123, col: 45, offset: 68435},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2122, col: 55, offset: 68413},
+										pos:  position{line: 2123, col: 55, offset: 68445},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2122, col: 89, offset: 68447},
+									pos:        position{line: 2123, col: 89, offset: 68479},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41838,21 +42006,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2126, col: 7, offset: 68616},
+						pos: position{line: 2127, col: 7, offset: 68648},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2126, col: 7, offset: 68616},
+							pos: position{line: 2127, col: 7, offset: 68648},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2126, col: 7, offset: 68616},
+									pos:   position{line: 2127, col: 7, offset: 68648},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41861,21 +42029,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2126, col: 42, offset: 68651},
+									pos:        position{line: 2127, col: 42, offset: 68683},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2126, col: 47, offset: 68656},
+									pos:   position{line: 2127, col: 47, offset: 68688},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2126, col: 57, offset: 68666},
+										pos:  position{line: 2127, col: 57, offset: 68698},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2126, col: 91, offset: 68700},
+									pos:        position{line: 2127, col: 91, offset: 68732},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41884,21 +42052,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2131, col: 7, offset: 68906},
+						pos: position{line: 2132, col: 7, offset: 68938},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2131, col: 7, offset: 68906},
+							pos: position{line: 2132, col: 7, offset: 68938},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2131, col: 7, offset: 68906},
+									pos:   position{line: 2132, col: 7, offset: 68938},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41907,21 +42075,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2131, col: 42, offset: 68941},
+									pos:        position{line: 2132, col: 42, offset: 68973},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2131, col: 46, offset: 68945},
+									pos:   position{line: 2132, col: 46, offset: 68977},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2131, col: 56, offset: 68955},
+										pos:  position{line: 2132, col: 56, offset: 68987},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2131, col: 90, offset: 68989},
+									pos:        position{line: 2132, col: 90, offset: 69021},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41934,29 +42102,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2148, col: 1, offset: 69474},
+			pos:  position{line: 2149, col: 1, offset: 69506},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69504},
+				pos: position{line: 2150, col: 5, offset: 69536},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69504},
+					pos: position{line: 2150, col: 5, offset: 69536},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2144, col: 40, offset: 69425},
+							pos:        position{line: 2145, col: 40, offset: 69457},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69545},
+							pos:   position{line: 2151, col: 5, offset: 69577},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69555},
+								pos:  position{line: 2151, col: 15, offset: 69587},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2146, col: 38, offset: 69468},
+							pos:        position{line: 2147, col: 38, offset: 69500},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -41967,44 +42135,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69721},
+			pos:  position{line: 2156, col: 1, offset: 69753},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2155, col: 34, offset: 69754},
+				pos: position{line: 2156, col: 34, offset: 69786},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2155, col: 34, offset: 69754},
+					pos:  position{line: 2156, col: 34, offset: 69786},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2157, col: 1, offset: 69785},
+			pos:  position{line: 2158, col: 1, offset: 69817},
 			expr: &actionExpr{
-				pos: position{line: 2158, col: 5, offset: 69854},
+				pos: position{line: 2159, col: 5, offset: 69886},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2158, col: 5, offset: 69854},
+					pos: position{line: 2159, col: 5, offset: 69886},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2159, col: 5, offset: 69865},
+							pos: position{line: 2160, col: 5, offset: 69897},
 							expr: &litMatcher{
-								pos:        position{line: 2146, col: 38, offset: 69468},
+								pos:        position{line: 2147, col: 38, offset: 69500},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 69904},
+							pos:   position{line: 2161, col: 5, offset: 69936},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 14, offset: 69913},
+								pos:  position{line: 2161, col: 14, offset: 69945},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42014,29 +42182,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2185, col: 1, offset: 70595},
+			pos:  position{line: 2186, col: 1, offset: 70627},
 			expr: &actionExpr{
-				pos: position{line: 2186, col: 5, offset: 70625},
+				pos: position{line: 2187, col: 5, offset: 70657},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2186, col: 5, offset: 70625},
+					pos: position{line: 2187, col: 5, offset: 70657},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2169, col: 5, offset: 70161},
+							pos:        position{line: 2170, col: 5, offset: 70193},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2170, col: 5, offset: 70170},
+							pos: position{line: 2171, col: 5, offset: 70202},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2174, col: 5, offset: 70290},
+							pos: position{line: 2175, col: 5, offset: 70322},
 							expr: &notExpr{
-								pos: position{line: 2174, col: 7, offset: 70292},
+								pos: position{line: 2175, col: 7, offset: 70324},
 								expr: &litMatcher{
-									pos:        position{line: 2174, col: 8, offset: 70293},
+									pos:        position{line: 2175, col: 8, offset: 70325},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42044,38 +42212,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2187, col: 5, offset: 70665},
+							pos:   position{line: 2188, col: 5, offset: 70697},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2187, col: 15, offset: 70675},
+								pos:  position{line: 2188, col: 15, offset: 70707},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2177, col: 5, offset: 70398},
+							pos:        position{line: 2178, col: 5, offset: 70430},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2178, col: 5, offset: 70406},
+							pos: position{line: 2179, col: 5, offset: 70438},
 							expr: &litMatcher{
-								pos:        position{line: 2178, col: 6, offset: 70407},
+								pos:        position{line: 2179, col: 6, offset: 70439},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2179, col: 5, offset: 70470},
+							pos: position{line: 2180, col: 5, offset: 70502},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2183, col: 5, offset: 70581},
+							pos: position{line: 2184, col: 5, offset: 70613},
 							expr: &notExpr{
-								pos: position{line: 2183, col: 7, offset: 70583},
+								pos: position{line: 2184, col: 7, offset: 70615},
 								expr: &charClassMatcher{
-									pos:        position{line: 2764, col: 13, offset: 87941},
+									pos:        position{line: 2765, col: 13, offset: 88029},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42089,20 +42257,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2192, col: 1, offset: 70842},
+			pos:  position{line: 2193, col: 1, offset: 70874},
 			expr: &actionExpr{
-				pos: position{line: 2193, col: 5, offset: 70880},
+				pos: position{line: 2194, col: 5, offset: 70912},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2193, col: 5, offset: 70880},
+					pos: position{line: 2194, col: 5, offset: 70912},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2193, col: 5, offset: 70880},
+							pos: position{line: 2194, col: 5, offset: 70912},
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 10, offset: 90846},
+								pos: position{line: 2875, col: 10, offset: 90934},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2874, col: 10, offset: 90846},
+									pos:        position{line: 2875, col: 10, offset: 90934},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42111,18 +42279,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2194, col: 5, offset: 70919},
+							pos:   position{line: 2195, col: 5, offset: 70951},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2194, col: 14, offset: 70928},
+								pos: position{line: 2195, col: 14, offset: 70960},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2194, col: 15, offset: 70929},
+									pos:  position{line: 2195, col: 15, offset: 70961},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2195, col: 5, offset: 70965},
+							pos: position{line: 2196, col: 5, offset: 70997},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42131,49 +42299,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2201, col: 1, offset: 71106},
+			pos:  position{line: 2202, col: 1, offset: 71138},
 			expr: &actionExpr{
-				pos: position{line: 2202, col: 5, offset: 71143},
+				pos: position{line: 2203, col: 5, offset: 71175},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2202, col: 5, offset: 71143},
+					pos: position{line: 2203, col: 5, offset: 71175},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71154},
+							pos: position{line: 2204, col: 5, offset: 71186},
 							expr: &seqExpr{
-								pos: position{line: 2177, col: 5, offset: 70398},
+								pos: position{line: 2178, col: 5, offset: 70430},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2177, col: 5, offset: 70398},
+										pos:        position{line: 2178, col: 5, offset: 70430},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2178, col: 5, offset: 70406},
+										pos: position{line: 2179, col: 5, offset: 70438},
 										expr: &litMatcher{
-											pos:        position{line: 2178, col: 6, offset: 70407},
+											pos:        position{line: 2179, col: 6, offset: 70439},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2179, col: 5, offset: 70470},
+										pos: position{line: 2180, col: 5, offset: 70502},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2183, col: 5, offset: 70581},
+										pos: position{line: 2184, col: 5, offset: 70613},
 										expr: &notExpr{
-											pos: position{line: 2183, col: 7, offset: 70583},
+											pos: position{line: 2184, col: 7, offset: 70615},
 											expr: &charClassMatcher{
-												pos:        position{line: 2764, col: 13, offset: 87941},
+												pos:        position{line: 2765, col: 13, offset: 88029},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42185,10 +42353,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2204, col: 5, offset: 71193},
+							pos:   position{line: 2205, col: 5, offset: 71225},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2204, col: 14, offset: 71202},
+								pos:  position{line: 2205, col: 14, offset: 71234},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42198,35 +42366,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2209, col: 1, offset: 71290},
+			pos:  position{line: 2210, col: 1, offset: 71322},
 			expr: &choiceExpr{
-				pos: position{line: 2211, col: 5, offset: 71354},
+				pos: position{line: 2212, col: 5, offset: 71386},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2211, col: 5, offset: 71354},
+						pos: position{line: 2212, col: 5, offset: 71386},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2211, col: 5, offset: 71354},
+							pos: position{line: 2212, col: 5, offset: 71386},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2211, col: 5, offset: 71354},
+									pos:   position{line: 2212, col: 5, offset: 71386},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59558},
+										pos: position{line: 1847, col: 25, offset: 59590},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59558},
+											pos: position{line: 1847, col: 25, offset: 59590},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59558},
+													pos:        position{line: 1847, col: 25, offset: 59590},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59563},
+													pos: position{line: 1847, col: 30, offset: 59595},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59563},
+														pos:        position{line: 1847, col: 30, offset: 59595},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42237,21 +42405,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2211, col: 40, offset: 71389},
+									pos:        position{line: 2212, col: 40, offset: 71421},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2211, col: 45, offset: 71394},
+									pos:   position{line: 2212, col: 45, offset: 71426},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2211, col: 55, offset: 71404},
+										pos:  position{line: 2212, col: 55, offset: 71436},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2211, col: 86, offset: 71435},
+									pos:        position{line: 2212, col: 86, offset: 71467},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42260,21 +42428,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2215, col: 7, offset: 71600},
+						pos: position{line: 2216, col: 7, offset: 71632},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2215, col: 7, offset: 71600},
+							pos: position{line: 2216, col: 7, offset: 71632},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2215, col: 7, offset: 71600},
+									pos:   position{line: 2216, col: 7, offset: 71632},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42283,21 +42451,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2215, col: 42, offset: 71635},
+									pos:        position{line: 2216, col: 42, offset: 71667},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2215, col: 47, offset: 71640},
+									pos:   position{line: 2216, col: 47, offset: 71672},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2215, col: 57, offset: 71650},
+										pos:  position{line: 2216, col: 57, offset: 71682},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2215, col: 88, offset: 71681},
+									pos:        position{line: 2216, col: 88, offset: 71713},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42306,21 +42474,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2220, col: 7, offset: 71884},
+						pos: position{line: 2221, col: 7, offset: 71916},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2220, col: 7, offset: 71884},
+							pos: position{line: 2221, col: 7, offset: 71916},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2220, col: 7, offset: 71884},
+									pos:   position{line: 2221, col: 7, offset: 71916},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59485},
+										pos: position{line: 1843, col: 25, offset: 59517},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59485},
+											pos: position{line: 1843, col: 25, offset: 59517},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59485},
+												pos:        position{line: 1843, col: 25, offset: 59517},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42329,21 +42497,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2220, col: 42, offset: 71919},
+									pos:        position{line: 2221, col: 42, offset: 71951},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2220, col: 46, offset: 71923},
+									pos:   position{line: 2221, col: 46, offset: 71955},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2220, col: 56, offset: 71933},
+										pos:  position{line: 2221, col: 56, offset: 71965},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2220, col: 87, offset: 71964},
+									pos:        position{line: 2221, col: 87, offset: 71996},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42356,29 +42524,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2227, col: 1, offset: 72231},
+			pos:  position{line: 2228, col: 1, offset: 72263},
 			expr: &actionExpr{
-				pos: position{line: 2228, col: 5, offset: 72253},
+				pos: position{line: 2229, col: 5, offset: 72285},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2228, col: 5, offset: 72253},
+					pos: position{line: 2229, col: 5, offset: 72285},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72468},
+							pos:        position{line: 2235, col: 27, offset: 72500},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2229, col: 5, offset: 72280},
+							pos:   position{line: 2230, col: 5, offset: 72312},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2229, col: 14, offset: 72289},
+								pos:  position{line: 2230, col: 14, offset: 72321},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72468},
+							pos:        position{line: 2235, col: 27, offset: 72500},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42389,32 +42557,32 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2236, col: 1, offset: 72473},
+			pos:  position{line: 2237, col: 1, offset: 72505},
 			expr: &choiceExpr{
-				pos: position{line: 2236, col: 25, offset: 72497},
+				pos: position{line: 2237, col: 25, offset: 72529},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2236, col: 25, offset: 72497},
+						pos:  position{line: 2237, col: 25, offset: 72529},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2238, col: 21, offset: 72549},
+						pos: position{line: 2239, col: 21, offset: 72581},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2238, col: 21, offset: 72549},
+							pos:   position{line: 2239, col: 21, offset: 72581},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2238, col: 30, offset: 72558},
+								pos: position{line: 2239, col: 30, offset: 72590},
 								expr: &choiceExpr{
-									pos: position{line: 2243, col: 5, offset: 72692},
+									pos: position{line: 2244, col: 5, offset: 72724},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2243, col: 5, offset: 72692},
+											pos: position{line: 2244, col: 5, offset: 72724},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2243, col: 5, offset: 72692},
+												pos: position{line: 2244, col: 5, offset: 72724},
 												expr: &charClassMatcher{
-													pos:        position{line: 2243, col: 5, offset: 72692},
+													pos:        position{line: 2244, col: 5, offset: 72724},
 													val:        "[^\\r\\n ~<>&]",
 													chars:      []rune{'\r', '\n', ' ', '~', '<', '>', '&'},
 													ignoreCase: false,
@@ -42423,23 +42591,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2468, col: 5, offset: 79306},
+											pos: position{line: 2469, col: 5, offset: 79394},
 											run: (*parser).callonSubscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2468, col: 5, offset: 79306},
+												pos: position{line: 2469, col: 5, offset: 79394},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2468, col: 5, offset: 79306},
+														pos: position{line: 2469, col: 5, offset: 79394},
 														run: (*parser).callonSubscriptTextElement12,
 													},
 													&labeledExpr{
-														pos:   position{line: 2471, col: 5, offset: 79382},
+														pos:   position{line: 2472, col: 5, offset: 79470},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2472, col: 9, offset: 79400},
+															pos: position{line: 2473, col: 9, offset: 79488},
 															run: (*parser).callonSubscriptTextElement14,
 															expr: &charClassMatcher{
-																pos:        position{line: 2472, col: 10, offset: 79401},
+																pos:        position{line: 2473, col: 10, offset: 79489},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42451,10 +42619,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2247, col: 7, offset: 72770},
+											pos: position{line: 2248, col: 7, offset: 72802},
 											run: (*parser).callonSubscriptTextElement16,
 											expr: &charClassMatcher{
-												pos:        position{line: 2247, col: 7, offset: 72770},
+												pos:        position{line: 2248, col: 7, offset: 72802},
 												val:        "[<>&]",
 												chars:      []rune{'<', '>', '&'},
 												ignoreCase: false,
@@ -42471,23 +42639,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2251, col: 1, offset: 72869},
+			pos:  position{line: 2252, col: 1, offset: 72901},
 			expr: &actionExpr{
-				pos: position{line: 2253, col: 5, offset: 72936},
+				pos: position{line: 2254, col: 5, offset: 72968},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2253, col: 5, offset: 72936},
+					pos: position{line: 2254, col: 5, offset: 72968},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2253, col: 5, offset: 72936},
+							pos:   position{line: 2254, col: 5, offset: 72968},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1842, col: 25, offset: 59485},
+								pos: position{line: 1843, col: 25, offset: 59517},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1842, col: 25, offset: 59485},
+									pos: position{line: 1843, col: 25, offset: 59517},
 									expr: &litMatcher{
-										pos:        position{line: 1842, col: 25, offset: 59485},
+										pos:        position{line: 1843, col: 25, offset: 59517},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42496,21 +42664,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72468},
+							pos:        position{line: 2235, col: 27, offset: 72500},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73004},
+							pos:   position{line: 2256, col: 5, offset: 73036},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73013},
+								pos:  position{line: 2256, col: 14, offset: 73045},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72468},
+							pos:        position{line: 2235, col: 27, offset: 72500},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42521,29 +42689,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2263, col: 1, offset: 73276},
+			pos:  position{line: 2264, col: 1, offset: 73308},
 			expr: &actionExpr{
-				pos: position{line: 2264, col: 5, offset: 73300},
+				pos: position{line: 2265, col: 5, offset: 73332},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2264, col: 5, offset: 73300},
+					pos: position{line: 2265, col: 5, offset: 73332},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2270, col: 29, offset: 73527},
+							pos:        position{line: 2271, col: 29, offset: 73559},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2265, col: 5, offset: 73330},
+							pos:   position{line: 2266, col: 5, offset: 73362},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2265, col: 14, offset: 73339},
+								pos:  position{line: 2266, col: 14, offset: 73371},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2270, col: 29, offset: 73527},
+							pos:        position{line: 2271, col: 29, offset: 73559},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42554,32 +42722,32 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2272, col: 1, offset: 73532},
+			pos:  position{line: 2273, col: 1, offset: 73564},
 			expr: &choiceExpr{
-				pos: position{line: 2272, col: 27, offset: 73558},
+				pos: position{line: 2273, col: 27, offset: 73590},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2272, col: 27, offset: 73558},
+						pos:  position{line: 2273, col: 27, offset: 73590},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2274, col: 23, offset: 73614},
+						pos: position{line: 2275, col: 23, offset: 73646},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2274, col: 23, offset: 73614},
+							pos:   position{line: 2275, col: 23, offset: 73646},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2274, col: 32, offset: 73623},
+								pos: position{line: 2275, col: 32, offset: 73655},
 								expr: &choiceExpr{
-									pos: position{line: 2279, col: 5, offset: 73761},
+									pos: position{line: 2280, col: 5, offset: 73793},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2279, col: 5, offset: 73761},
+											pos: position{line: 2280, col: 5, offset: 73793},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2279, col: 5, offset: 73761},
+												pos: position{line: 2280, col: 5, offset: 73793},
 												expr: &charClassMatcher{
-													pos:        position{line: 2279, col: 5, offset: 73761},
+													pos:        position{line: 2280, col: 5, offset: 73793},
 													val:        "[^\\r\\n ^<>&]",
 													chars:      []rune{'\r', '\n', ' ', '^', '<', '>', '&'},
 													ignoreCase: false,
@@ -42588,23 +42756,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2468, col: 5, offset: 79306},
+											pos: position{line: 2469, col: 5, offset: 79394},
 											run: (*parser).callonSuperscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2468, col: 5, offset: 79306},
+												pos: position{line: 2469, col: 5, offset: 79394},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2468, col: 5, offset: 79306},
+														pos: position{line: 2469, col: 5, offset: 79394},
 														run: (*parser).callonSuperscriptTextElement12,
 													},
 													&labeledExpr{
-														pos:   position{line: 2471, col: 5, offset: 79382},
+														pos:   position{line: 2472, col: 5, offset: 79470},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2472, col: 9, offset: 79400},
+															pos: position{line: 2473, col: 9, offset: 79488},
 															run: (*parser).callonSuperscriptTextElement14,
 															expr: &charClassMatcher{
-																pos:        position{line: 2472, col: 10, offset: 79401},
+																pos:        position{line: 2473, col: 10, offset: 79489},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42616,10 +42784,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2283, col: 7, offset: 73839},
+											pos: position{line: 2284, col: 7, offset: 73871},
 											run: (*parser).callonSuperscriptTextElement16,
 											expr: &charClassMatcher{
-												pos:        position{line: 2283, col: 7, offset: 73839},
+												pos:        position{line: 2284, col: 7, offset: 73871},
 												val:        "[<>&]",
 												chars:      []rune{'<', '>', '&'},
 												ignoreCase: false,
@@ -42636,23 +42804,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2287, col: 1, offset: 73938},
+			pos:  position{line: 2288, col: 1, offset: 73970},
 			expr: &actionExpr{
-				pos: position{line: 2289, col: 5, offset: 74010},
+				pos: position{line: 2290, col: 5, offset: 74042},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2289, col: 5, offset: 74010},
+					pos: position{line: 2290, col: 5, offset: 74042},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2289, col: 5, offset: 74010},
+							pos:   position{line: 2290, col: 5, offset: 74042},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1842, col: 25, offset: 59485},
+								pos: position{line: 1843, col: 25, offset: 59517},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1842, col: 25, offset: 59485},
+									pos: position{line: 1843, col: 25, offset: 59517},
 									expr: &litMatcher{
-										pos:        position{line: 1842, col: 25, offset: 59485},
+										pos:        position{line: 1843, col: 25, offset: 59517},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42661,21 +42829,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2270, col: 29, offset: 73527},
+							pos:        position{line: 2271, col: 29, offset: 73559},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2291, col: 5, offset: 74080},
+							pos:   position{line: 2292, col: 5, offset: 74112},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2291, col: 14, offset: 74089},
+								pos:  position{line: 2292, col: 14, offset: 74121},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2270, col: 29, offset: 73527},
+							pos:        position{line: 2271, col: 29, offset: 73559},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42686,27 +42854,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2300, col: 1, offset: 74558},
+			pos:  position{line: 2301, col: 1, offset: 74590},
 			expr: &actionExpr{
-				pos: position{line: 2301, col: 5, offset: 74574},
+				pos: position{line: 2302, col: 5, offset: 74606},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2301, col: 5, offset: 74574},
+					pos: position{line: 2302, col: 5, offset: 74606},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2301, col: 5, offset: 74574},
+							pos: position{line: 2302, col: 5, offset: 74606},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2304, col: 5, offset: 74637},
+							pos:   position{line: 2305, col: 5, offset: 74669},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2304, col: 12, offset: 74644},
+								pos: position{line: 2305, col: 12, offset: 74676},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2304, col: 12, offset: 74644},
+									pos: position{line: 2305, col: 12, offset: 74676},
 									expr: &litMatcher{
-										pos:        position{line: 2304, col: 13, offset: 74645},
+										pos:        position{line: 2305, col: 13, offset: 74677},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42715,16 +42883,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2308, col: 5, offset: 74753},
+							pos: position{line: 2309, col: 5, offset: 74785},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2878, col: 11, offset: 90907},
+							pos: position{line: 2879, col: 11, offset: 90995},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2878, col: 11, offset: 90907},
+								pos: position{line: 2879, col: 11, offset: 90995},
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 11, offset: 90907},
+									pos:        position{line: 2879, col: 11, offset: 90995},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42733,36 +42901,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 12, offset: 74912},
+							pos:   position{line: 2313, col: 12, offset: 74944},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 19, offset: 74919},
+								pos:  position{line: 2313, col: 19, offset: 74951},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42771,9 +42939,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -42784,24 +42952,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2316, col: 1, offset: 75015},
+			pos:  position{line: 2317, col: 1, offset: 75047},
 			expr: &actionExpr{
-				pos: position{line: 2317, col: 5, offset: 75036},
+				pos: position{line: 2318, col: 5, offset: 75068},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2317, col: 5, offset: 75036},
+					pos: position{line: 2318, col: 5, offset: 75068},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2317, col: 5, offset: 75036},
+							pos: position{line: 2318, col: 5, offset: 75068},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75151},
+							pos:   position{line: 2323, col: 5, offset: 75183},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2322, col: 14, offset: 75160},
+								pos: position{line: 2323, col: 14, offset: 75192},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2322, col: 15, offset: 75161},
+									pos:  position{line: 2323, col: 15, offset: 75193},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42812,38 +42980,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2326, col: 1, offset: 75242},
+			pos:  position{line: 2327, col: 1, offset: 75274},
 			expr: &actionExpr{
-				pos: position{line: 2327, col: 5, offset: 75269},
+				pos: position{line: 2328, col: 5, offset: 75301},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2327, col: 5, offset: 75269},
+					pos: position{line: 2328, col: 5, offset: 75301},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2327, col: 5, offset: 75269},
+							pos: position{line: 2328, col: 5, offset: 75301},
 							expr: &choiceExpr{
-								pos: position{line: 2896, col: 8, offset: 91244},
+								pos: position{line: 2897, col: 8, offset: 91332},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91017},
+										pos: position{line: 2884, col: 12, offset: 91105},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2883, col: 13, offset: 91018},
+											pos: position{line: 2884, col: 13, offset: 91106},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2883, col: 13, offset: 91018},
+													pos:        position{line: 2884, col: 13, offset: 91106},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 20, offset: 91025},
+													pos:        position{line: 2884, col: 20, offset: 91113},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 29, offset: 91034},
+													pos:        position{line: 2884, col: 29, offset: 91122},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42852,36 +43020,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2893, col: 8, offset: 91194},
+										pos: position{line: 2894, col: 8, offset: 91282},
 										expr: &anyMatcher{
-											line: 2893, col: 9, offset: 91195,
+											line: 2894, col: 9, offset: 91283,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2328, col: 5, offset: 75278},
+							pos:   position{line: 2329, col: 5, offset: 75310},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2329, col: 9, offset: 75296},
+								pos: position{line: 2330, col: 9, offset: 75328},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2773, col: 5, offset: 88088},
+										pos: position{line: 2774, col: 5, offset: 88176},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2773, col: 5, offset: 88088},
+											pos: position{line: 2774, col: 5, offset: 88176},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2773, col: 5, offset: 88088},
+													pos:   position{line: 2774, col: 5, offset: 88176},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2773, col: 11, offset: 88094},
+														pos: position{line: 2774, col: 11, offset: 88182},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2773, col: 11, offset: 88094},
+															pos: position{line: 2774, col: 11, offset: 88182},
 															expr: &charClassMatcher{
-																pos:        position{line: 2773, col: 11, offset: 88094},
+																pos:        position{line: 2774, col: 11, offset: 88182},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42891,36 +43059,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2776, col: 5, offset: 88152},
+													pos: position{line: 2777, col: 5, offset: 88240},
 													expr: &seqExpr{
-														pos: position{line: 2777, col: 9, offset: 88163},
+														pos: position{line: 2778, col: 9, offset: 88251},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2777, col: 9, offset: 88163},
+																pos:        position{line: 2778, col: 9, offset: 88251},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2778, col: 9, offset: 88212},
+																pos: position{line: 2779, col: 9, offset: 88300},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2782, col: 5, offset: 88292},
+													pos: position{line: 2783, col: 5, offset: 88380},
 													expr: &seqExpr{
-														pos: position{line: 2783, col: 9, offset: 88303},
+														pos: position{line: 2784, col: 9, offset: 88391},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2783, col: 9, offset: 88303},
+																pos:        position{line: 2784, col: 9, offset: 88391},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2783, col: 13, offset: 88307},
+																pos:        position{line: 2784, col: 13, offset: 88395},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42933,12 +43101,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2878, col: 11, offset: 90907},
+										pos: position{line: 2879, col: 11, offset: 90995},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2878, col: 11, offset: 90907},
+											pos: position{line: 2879, col: 11, offset: 90995},
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 11, offset: 90907},
+												pos:        position{line: 2879, col: 11, offset: 90995},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42947,25 +43115,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80477},
+										pos: position{line: 2500, col: 5, offset: 80565},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80477},
+											pos: position{line: 2500, col: 5, offset: 80565},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80477},
+													pos: position{line: 2500, col: 5, offset: 80565},
 													run: (*parser).callonSectionTitleElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2502, col: 5, offset: 80548},
+													pos:        position{line: 2503, col: 5, offset: 80636},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2502, col: 10, offset: 80553},
+													pos: position{line: 2503, col: 10, offset: 80641},
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 11, offset: 80554},
+														pos:        position{line: 2503, col: 11, offset: 80642},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42976,29 +43144,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2508, col: 5, offset: 80746},
+										pos: position{line: 2509, col: 5, offset: 80834},
 										run: (*parser).callonSectionTitleElement37,
 										expr: &seqExpr{
-											pos: position{line: 2508, col: 5, offset: 80746},
+											pos: position{line: 2509, col: 5, offset: 80834},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2508, col: 5, offset: 80746},
+													pos: position{line: 2509, col: 5, offset: 80834},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 80817},
+													pos: position{line: 2512, col: 5, offset: 80905},
 													run: (*parser).callonSectionTitleElement40,
 												},
 												&litMatcher{
-													pos:        position{line: 2515, col: 5, offset: 80942},
+													pos:        position{line: 2516, col: 5, offset: 81030},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2515, col: 9, offset: 80946},
+													pos: position{line: 2516, col: 9, offset: 81034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2515, col: 10, offset: 80947},
+														pos:        position{line: 2516, col: 10, offset: 81035},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43009,31 +43177,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75361},
+										pos:  position{line: 2333, col: 11, offset: 75393},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 5, offset: 88500},
+										pos: position{line: 2792, col: 5, offset: 88588},
 										run: (*parser).callonSectionTitleElement45,
 										expr: &choiceExpr{
-											pos: position{line: 2792, col: 9, offset: 88510},
+											pos: position{line: 2793, col: 9, offset: 88598},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2792, col: 10, offset: 88511},
+													pos:        position{line: 2793, col: 10, offset: 88599},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 13, offset: 88608},
+													pos: position{line: 2795, col: 13, offset: 88696},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2794, col: 13, offset: 88608},
+															pos: position{line: 2795, col: 13, offset: 88696},
 															run: (*parser).callonSectionTitleElement49,
 														},
 														&litMatcher{
-															pos:        position{line: 2797, col: 13, offset: 88708},
+															pos:        position{line: 2798, col: 13, offset: 88796},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43041,20 +43209,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2797, col: 19, offset: 88714},
+													pos:        position{line: 2798, col: 19, offset: 88802},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2800, col: 13, offset: 88752},
+													pos: position{line: 2801, col: 13, offset: 88840},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2800, col: 13, offset: 88752},
+															pos: position{line: 2801, col: 13, offset: 88840},
 															run: (*parser).callonSectionTitleElement53,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2803, col: 14, offset: 88845},
+															pos:        position{line: 2804, col: 14, offset: 88933},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43063,18 +43231,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2805, col: 12, offset: 88889},
+													pos: position{line: 2806, col: 12, offset: 88977},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2805, col: 12, offset: 88889},
+															pos:        position{line: 2806, col: 12, offset: 88977},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2805, col: 16, offset: 88893},
+															pos: position{line: 2806, col: 16, offset: 88981},
 															expr: &litMatcher{
-																pos:        position{line: 2805, col: 17, offset: 88894},
+																pos:        position{line: 2806, col: 17, offset: 88982},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43086,35 +43254,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75434},
+										pos:  position{line: 2335, col: 11, offset: 75466},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75450},
+										pos:  position{line: 2336, col: 11, offset: 75482},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75478},
+										pos:  position{line: 2337, col: 11, offset: 75510},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2468, col: 5, offset: 79306},
+										pos: position{line: 2469, col: 5, offset: 79394},
 										run: (*parser).callonSectionTitleElement62,
 										expr: &seqExpr{
-											pos: position{line: 2468, col: 5, offset: 79306},
+											pos: position{line: 2469, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2468, col: 5, offset: 79306},
+													pos: position{line: 2469, col: 5, offset: 79394},
 													run: (*parser).callonSectionTitleElement64,
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 5, offset: 79382},
+													pos:   position{line: 2472, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2472, col: 9, offset: 79400},
+														pos: position{line: 2473, col: 9, offset: 79488},
 														run: (*parser).callonSectionTitleElement66,
 														expr: &charClassMatcher{
-															pos:        position{line: 2472, col: 10, offset: 79401},
+															pos:        position{line: 2473, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43126,7 +43294,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75563},
+										pos:  position{line: 2339, col: 11, offset: 75595},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43515,17 +43683,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2351, col: 5, offset: 76016},
+										pos: position{line: 2352, col: 5, offset: 76048},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2351, col: 5, offset: 76016},
+											pos: position{line: 2352, col: 5, offset: 76048},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2351, col: 5, offset: 76016},
+													pos: position{line: 2352, col: 5, offset: 76048},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2354, col: 5, offset: 76071},
+													pos:   position{line: 2355, col: 5, offset: 76103},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43979,12 +44147,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2354, col: 26, offset: 76092},
+													pos: position{line: 2355, col: 26, offset: 76124},
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 10, offset: 90846},
+														pos: position{line: 2875, col: 10, offset: 90934},
 														run: (*parser).callonSectionTitleElement242,
 														expr: &charClassMatcher{
-															pos:        position{line: 2874, col: 10, offset: 90846},
+															pos:        position{line: 2875, col: 10, offset: 90934},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43993,30 +44161,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2354, col: 33, offset: 76099},
+													pos: position{line: 2355, col: 33, offset: 76131},
 													expr: &choiceExpr{
-														pos: position{line: 2896, col: 8, offset: 91244},
+														pos: position{line: 2897, col: 8, offset: 91332},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 12, offset: 91017},
+																pos: position{line: 2884, col: 12, offset: 91105},
 																run: (*parser).callonSectionTitleElement246,
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 13, offset: 91018},
+																	pos: position{line: 2884, col: 13, offset: 91106},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 13, offset: 91018},
+																			pos:        position{line: 2884, col: 13, offset: 91106},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 20, offset: 91025},
+																			pos:        position{line: 2884, col: 20, offset: 91113},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2883, col: 29, offset: 91034},
+																			pos:        position{line: 2884, col: 29, offset: 91122},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44025,9 +44193,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2893, col: 8, offset: 91194},
+																pos: position{line: 2894, col: 8, offset: 91282},
 																expr: &anyMatcher{
-																	line: 2893, col: 9, offset: 91195,
+																	line: 2894, col: 9, offset: 91283,
 																},
 															},
 														},
@@ -44052,12 +44220,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 7, offset: 90498},
+														pos: position{line: 2860, col: 7, offset: 90586},
 														run: (*parser).callonSectionTitleElement257,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2859, col: 7, offset: 90498},
+															pos: position{line: 2860, col: 7, offset: 90586},
 															expr: &charClassMatcher{
-																pos:        position{line: 2859, col: 7, offset: 90498},
+																pos:        position{line: 2860, col: 7, offset: 90586},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44091,12 +44259,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 7, offset: 90498},
+														pos: position{line: 2860, col: 7, offset: 90586},
 														run: (*parser).callonSectionTitleElement265,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2859, col: 7, offset: 90498},
+															pos: position{line: 2860, col: 7, offset: 90586},
 															expr: &charClassMatcher{
-																pos:        position{line: 2859, col: 7, offset: 90498},
+																pos:        position{line: 2860, col: 7, offset: 90586},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44115,14 +44283,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2343, col: 11, offset: 75817},
+										pos:  position{line: 2344, col: 11, offset: 75849},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2813, col: 12, offset: 89154},
+										pos: position{line: 2814, col: 12, offset: 89242},
 										run: (*parser).callonSectionTitleElement270,
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 12, offset: 89154},
+											pos:        position{line: 2814, col: 12, offset: 89242},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44138,52 +44306,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2364, col: 1, offset: 76361},
+			pos:  position{line: 2365, col: 1, offset: 76393},
 			expr: &actionExpr{
-				pos: position{line: 2365, col: 5, offset: 76448},
+				pos: position{line: 2366, col: 5, offset: 76480},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2365, col: 5, offset: 76448},
+					pos: position{line: 2366, col: 5, offset: 76480},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2365, col: 5, offset: 76448},
+							pos:   position{line: 2366, col: 5, offset: 76480},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2365, col: 14, offset: 76457},
+								pos: position{line: 2366, col: 14, offset: 76489},
 								expr: &actionExpr{
-									pos: position{line: 2367, col: 9, offset: 76483},
+									pos: position{line: 2368, col: 9, offset: 76515},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2367, col: 9, offset: 76483},
+										pos: position{line: 2368, col: 9, offset: 76515},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2891, col: 11, offset: 91180},
+												pos: position{line: 2892, col: 11, offset: 91268},
 												expr: &anyMatcher{
-													line: 2891, col: 13, offset: 91182,
+													line: 2892, col: 13, offset: 91270,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2368, col: 9, offset: 76498},
+												pos:   position{line: 2369, col: 9, offset: 76530},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2369, col: 13, offset: 76520},
+													pos: position{line: 2370, col: 13, offset: 76552},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2773, col: 5, offset: 88088},
+															pos: position{line: 2774, col: 5, offset: 88176},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2773, col: 5, offset: 88088},
+																pos: position{line: 2774, col: 5, offset: 88176},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2773, col: 5, offset: 88088},
+																		pos:   position{line: 2774, col: 5, offset: 88176},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2773, col: 11, offset: 88094},
+																			pos: position{line: 2774, col: 11, offset: 88182},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2773, col: 11, offset: 88094},
+																				pos: position{line: 2774, col: 11, offset: 88182},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2773, col: 11, offset: 88094},
+																					pos:        position{line: 2774, col: 11, offset: 88182},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44193,36 +44361,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2776, col: 5, offset: 88152},
+																		pos: position{line: 2777, col: 5, offset: 88240},
 																		expr: &seqExpr{
-																			pos: position{line: 2777, col: 9, offset: 88163},
+																			pos: position{line: 2778, col: 9, offset: 88251},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2777, col: 9, offset: 88163},
+																					pos:        position{line: 2778, col: 9, offset: 88251},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2778, col: 9, offset: 88212},
+																					pos: position{line: 2779, col: 9, offset: 88300},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2782, col: 5, offset: 88292},
+																		pos: position{line: 2783, col: 5, offset: 88380},
 																		expr: &seqExpr{
-																			pos: position{line: 2783, col: 9, offset: 88303},
+																			pos: position{line: 2784, col: 9, offset: 88391},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2783, col: 9, offset: 88303},
+																					pos:        position{line: 2784, col: 9, offset: 88391},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2783, col: 13, offset: 88307},
+																					pos:        position{line: 2784, col: 13, offset: 88395},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44235,12 +44403,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2878, col: 11, offset: 90907},
+															pos: position{line: 2879, col: 11, offset: 90995},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2878, col: 11, offset: 90907},
+																pos: position{line: 2879, col: 11, offset: 90995},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 11, offset: 90907},
+																	pos:        position{line: 2879, col: 11, offset: 90995},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44249,29 +44417,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2371, col: 15, offset: 76566},
+															pos:  position{line: 2372, col: 15, offset: 76598},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2499, col: 5, offset: 80477},
+															pos: position{line: 2500, col: 5, offset: 80565},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2499, col: 5, offset: 80477},
+																pos: position{line: 2500, col: 5, offset: 80565},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2499, col: 5, offset: 80477},
+																		pos: position{line: 2500, col: 5, offset: 80565},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 5, offset: 80548},
+																		pos:        position{line: 2503, col: 5, offset: 80636},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2502, col: 10, offset: 80553},
+																		pos: position{line: 2503, col: 10, offset: 80641},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2502, col: 11, offset: 80554},
+																			pos:        position{line: 2503, col: 11, offset: 80642},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44282,29 +44450,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2508, col: 5, offset: 80746},
+															pos: position{line: 2509, col: 5, offset: 80834},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2508, col: 5, offset: 80746},
+																pos: position{line: 2509, col: 5, offset: 80834},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2508, col: 5, offset: 80746},
+																		pos: position{line: 2509, col: 5, offset: 80834},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2511, col: 5, offset: 80817},
+																		pos: position{line: 2512, col: 5, offset: 80905},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2515, col: 5, offset: 80942},
+																		pos:        position{line: 2516, col: 5, offset: 81030},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2515, col: 9, offset: 80946},
+																		pos: position{line: 2516, col: 9, offset: 81034},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2515, col: 10, offset: 80947},
+																			pos:        position{line: 2516, col: 10, offset: 81035},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44315,27 +44483,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2791, col: 5, offset: 88500},
+															pos: position{line: 2792, col: 5, offset: 88588},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2792, col: 9, offset: 88510},
+																pos: position{line: 2793, col: 9, offset: 88598},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2792, col: 10, offset: 88511},
+																		pos:        position{line: 2793, col: 10, offset: 88599},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2794, col: 13, offset: 88608},
+																		pos: position{line: 2795, col: 13, offset: 88696},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2794, col: 13, offset: 88608},
+																				pos: position{line: 2795, col: 13, offset: 88696},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2797, col: 13, offset: 88708},
+																				pos:        position{line: 2798, col: 13, offset: 88796},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44343,20 +44511,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2797, col: 19, offset: 88714},
+																		pos:        position{line: 2798, col: 19, offset: 88802},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2800, col: 13, offset: 88752},
+																		pos: position{line: 2801, col: 13, offset: 88840},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2800, col: 13, offset: 88752},
+																				pos: position{line: 2801, col: 13, offset: 88840},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2803, col: 14, offset: 88845},
+																				pos:        position{line: 2804, col: 14, offset: 88933},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44365,18 +44533,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2805, col: 12, offset: 88889},
+																		pos: position{line: 2806, col: 12, offset: 88977},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2805, col: 12, offset: 88889},
+																				pos:        position{line: 2806, col: 12, offset: 88977},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2805, col: 16, offset: 88893},
+																				pos: position{line: 2806, col: 16, offset: 88981},
 																				expr: &litMatcher{
-																					pos:        position{line: 2805, col: 17, offset: 88894},
+																					pos:        position{line: 2806, col: 17, offset: 88982},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44388,25 +44556,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2883, col: 12, offset: 91017},
+															pos: position{line: 2884, col: 12, offset: 91105},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 13, offset: 91018},
+																pos: position{line: 2884, col: 13, offset: 91106},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 13, offset: 91018},
+																		pos:        position{line: 2884, col: 13, offset: 91106},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 20, offset: 91025},
+																		pos:        position{line: 2884, col: 20, offset: 91113},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2883, col: 29, offset: 91034},
+																		pos:        position{line: 2884, col: 29, offset: 91122},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44761,35 +44929,39 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2376, col: 15, offset: 76733},
+															pos:  position{line: 2377, col: 15, offset: 76765},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2377, col: 15, offset: 76753},
+															pos:  position{line: 2378, col: 15, offset: 76785},
+															name: "InlinePassthrough",
+														},
+														&ruleRefExpr{
+															pos:  position{line: 2379, col: 15, offset: 76873},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76842},
+															pos:  position{line: 2380, col: 15, offset: 76962},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2468, col: 5, offset: 79306},
-															run: (*parser).callonNormalGroup133,
+															pos: position{line: 2469, col: 5, offset: 79394},
+															run: (*parser).callonNormalGroup134,
 															expr: &seqExpr{
-																pos: position{line: 2468, col: 5, offset: 79306},
+																pos: position{line: 2469, col: 5, offset: 79394},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2468, col: 5, offset: 79306},
-																		run: (*parser).callonNormalGroup135,
+																		pos: position{line: 2469, col: 5, offset: 79394},
+																		run: (*parser).callonNormalGroup136,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 5, offset: 79382},
+																		pos:   position{line: 2472, col: 5, offset: 79470},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2472, col: 9, offset: 79400},
-																			run: (*parser).callonNormalGroup137,
+																			pos: position{line: 2473, col: 9, offset: 79488},
+																			run: (*parser).callonNormalGroup138,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2472, col: 10, offset: 79401},
+																				pos:        position{line: 2473, col: 10, offset: 79489},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44802,13 +44974,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1206, col: 5, offset: 37418},
-															run: (*parser).callonNormalGroup139,
+															run: (*parser).callonNormalGroup140,
 															expr: &seqExpr{
 																pos: position{line: 1206, col: 5, offset: 37418},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1206, col: 5, offset: 37418},
-																		run: (*parser).callonNormalGroup141,
+																		run: (*parser).callonNormalGroup142,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1209, col: 5, offset: 37494},
@@ -44818,15 +44990,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1210, col: 5, offset: 37502},
-																		run: (*parser).callonNormalGroup143,
+																		run: (*parser).callonNormalGroup144,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37589},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
-																			run: (*parser).callonNormalGroup145,
+																			pos: position{line: 2875, col: 10, offset: 90934},
+																			run: (*parser).callonNormalGroup146,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44837,28 +45009,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37596},
 																		expr: &choiceExpr{
-																			pos: position{line: 2896, col: 8, offset: 91244},
+																			pos: position{line: 2897, col: 8, offset: 91332},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
-																					run: (*parser).callonNormalGroup149,
+																					pos: position{line: 2884, col: 12, offset: 91105},
+																					run: (*parser).callonNormalGroup150,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44867,9 +45039,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2893, col: 8, offset: 91194},
+																					pos: position{line: 2894, col: 8, offset: 91282},
 																					expr: &anyMatcher{
-																						line: 2893, col: 9, offset: 91195,
+																						line: 2894, col: 9, offset: 91283,
 																					},
 																				},
 																			},
@@ -44878,10 +45050,6 @@ var g = &grammar{
 																},
 															},
 														},
-														&ruleRefExpr{
-															pos:  position{line: 2381, col: 15, offset: 77024},
-															name: "InlinePassthrough",
-														},
 														&actionExpr{
 															pos: position{line: 1198, col: 23, offset: 36972},
 															run: (*parser).callonNormalGroup157,
@@ -44922,10 +45090,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2813, col: 12, offset: 89154},
+															pos: position{line: 2814, col: 12, offset: 89242},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2813, col: 12, offset: 89154},
+																pos:        position{line: 2814, col: 12, offset: 89242},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44941,9 +45109,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -44952,28 +45120,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2392, col: 1, offset: 77462},
+			pos:  position{line: 2393, col: 1, offset: 77550},
 			expr: &actionExpr{
-				pos: position{line: 2393, col: 5, offset: 77495},
+				pos: position{line: 2394, col: 5, offset: 77583},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2393, col: 5, offset: 77495},
+					pos: position{line: 2394, col: 5, offset: 77583},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2393, col: 5, offset: 77495},
+							pos:   position{line: 2394, col: 5, offset: 77583},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2393, col: 14, offset: 77504},
+								pos: position{line: 2394, col: 14, offset: 77592},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2393, col: 15, offset: 77505},
+									pos:  position{line: 2394, col: 15, offset: 77593},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -44982,41 +45150,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2397, col: 1, offset: 77602},
+			pos:  position{line: 2398, col: 1, offset: 77690},
 			expr: &actionExpr{
-				pos: position{line: 2398, col: 5, offset: 77642},
+				pos: position{line: 2399, col: 5, offset: 77730},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2398, col: 5, offset: 77642},
+					pos: position{line: 2399, col: 5, offset: 77730},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2891, col: 11, offset: 91180},
+							pos: position{line: 2892, col: 11, offset: 91268},
 							expr: &anyMatcher{
-								line: 2891, col: 13, offset: 91182,
+								line: 2892, col: 13, offset: 91270,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2399, col: 5, offset: 77653},
+							pos:   position{line: 2400, col: 5, offset: 77741},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2400, col: 9, offset: 77671},
+								pos: position{line: 2401, col: 9, offset: 77759},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2773, col: 5, offset: 88088},
+										pos: position{line: 2774, col: 5, offset: 88176},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2773, col: 5, offset: 88088},
+											pos: position{line: 2774, col: 5, offset: 88176},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2773, col: 5, offset: 88088},
+													pos:   position{line: 2774, col: 5, offset: 88176},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2773, col: 11, offset: 88094},
+														pos: position{line: 2774, col: 11, offset: 88182},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2773, col: 11, offset: 88094},
+															pos: position{line: 2774, col: 11, offset: 88182},
 															expr: &charClassMatcher{
-																pos:        position{line: 2773, col: 11, offset: 88094},
+																pos:        position{line: 2774, col: 11, offset: 88182},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45026,36 +45194,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2776, col: 5, offset: 88152},
+													pos: position{line: 2777, col: 5, offset: 88240},
 													expr: &seqExpr{
-														pos: position{line: 2777, col: 9, offset: 88163},
+														pos: position{line: 2778, col: 9, offset: 88251},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2777, col: 9, offset: 88163},
+																pos:        position{line: 2778, col: 9, offset: 88251},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2778, col: 9, offset: 88212},
+																pos: position{line: 2779, col: 9, offset: 88300},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2782, col: 5, offset: 88292},
+													pos: position{line: 2783, col: 5, offset: 88380},
 													expr: &seqExpr{
-														pos: position{line: 2783, col: 9, offset: 88303},
+														pos: position{line: 2784, col: 9, offset: 88391},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2783, col: 9, offset: 88303},
+																pos:        position{line: 2784, col: 9, offset: 88391},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2783, col: 13, offset: 88307},
+																pos:        position{line: 2784, col: 13, offset: 88395},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45068,10 +45236,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 10, offset: 90846},
+										pos: position{line: 2875, col: 10, offset: 90934},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2874, col: 10, offset: 90846},
+											pos:        position{line: 2875, col: 10, offset: 90934},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45079,31 +45247,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2402, col: 11, offset: 77709},
+										pos:  position{line: 2403, col: 11, offset: 77797},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 5, offset: 88500},
+										pos: position{line: 2792, col: 5, offset: 88588},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2792, col: 9, offset: 88510},
+											pos: position{line: 2793, col: 9, offset: 88598},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2792, col: 10, offset: 88511},
+													pos:        position{line: 2793, col: 10, offset: 88599},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 13, offset: 88608},
+													pos: position{line: 2795, col: 13, offset: 88696},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2794, col: 13, offset: 88608},
+															pos: position{line: 2795, col: 13, offset: 88696},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2797, col: 13, offset: 88708},
+															pos:        position{line: 2798, col: 13, offset: 88796},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45111,20 +45279,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2797, col: 19, offset: 88714},
+													pos:        position{line: 2798, col: 19, offset: 88802},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2800, col: 13, offset: 88752},
+													pos: position{line: 2801, col: 13, offset: 88840},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2800, col: 13, offset: 88752},
+															pos: position{line: 2801, col: 13, offset: 88840},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2803, col: 14, offset: 88845},
+															pos:        position{line: 2804, col: 14, offset: 88933},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45133,18 +45301,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2805, col: 12, offset: 88889},
+													pos: position{line: 2806, col: 12, offset: 88977},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2805, col: 12, offset: 88889},
+															pos:        position{line: 2806, col: 12, offset: 88977},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2805, col: 16, offset: 88893},
+															pos: position{line: 2806, col: 16, offset: 88981},
 															expr: &litMatcher{
-																pos:        position{line: 2805, col: 17, offset: 88894},
+																pos:        position{line: 2806, col: 17, offset: 88982},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45156,31 +45324,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77782},
+										pos:  position{line: 2405, col: 11, offset: 77870},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77798},
+										pos:  position{line: 2406, col: 11, offset: 77886},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2468, col: 5, offset: 79306},
+										pos: position{line: 2469, col: 5, offset: 79394},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2468, col: 5, offset: 79306},
+											pos: position{line: 2469, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2468, col: 5, offset: 79306},
+													pos: position{line: 2469, col: 5, offset: 79394},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 5, offset: 79382},
+													pos:   position{line: 2472, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2472, col: 9, offset: 79400},
+														pos: position{line: 2473, col: 9, offset: 79488},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2472, col: 10, offset: 79401},
+															pos:        position{line: 2473, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45231,25 +45399,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 12, offset: 91017},
+										pos: position{line: 2884, col: 12, offset: 91105},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2883, col: 13, offset: 91018},
+											pos: position{line: 2884, col: 13, offset: 91106},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2883, col: 13, offset: 91018},
+													pos:        position{line: 2884, col: 13, offset: 91106},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 20, offset: 91025},
+													pos:        position{line: 2884, col: 20, offset: 91113},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2883, col: 29, offset: 91034},
+													pos:        position{line: 2884, col: 29, offset: 91122},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45258,10 +45426,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2813, col: 12, offset: 89154},
+										pos: position{line: 2814, col: 12, offset: 89242},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 12, offset: 89154},
+											pos:        position{line: 2814, col: 12, offset: 89242},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45277,49 +45445,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2416, col: 1, offset: 78068},
+			pos:  position{line: 2417, col: 1, offset: 78156},
 			expr: &actionExpr{
-				pos: position{line: 2418, col: 5, offset: 78150},
+				pos: position{line: 2419, col: 5, offset: 78238},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2418, col: 5, offset: 78150},
+					pos: position{line: 2419, col: 5, offset: 78238},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2418, col: 5, offset: 78150},
+							pos: position{line: 2419, col: 5, offset: 78238},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2421, col: 5, offset: 78215},
+							pos:   position{line: 2422, col: 5, offset: 78303},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2422, col: 9, offset: 78233},
+								pos: position{line: 2423, col: 9, offset: 78321},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 9, offset: 78233},
+										pos:  position{line: 2423, col: 9, offset: 78321},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78254},
+										pos:  position{line: 2424, col: 11, offset: 78342},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78277},
+										pos:  position{line: 2425, col: 11, offset: 78365},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78293},
+										pos:  position{line: 2426, col: 11, offset: 78381},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78322},
+										pos:  position{line: 2427, col: 11, offset: 78410},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78348},
+										pos:  position{line: 2428, col: 11, offset: 78436},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78374},
+										pos:  position{line: 2429, col: 11, offset: 78462},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45338,12 +45506,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38741},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 7, offset: 90498},
+														pos: position{line: 2860, col: 7, offset: 90586},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2859, col: 7, offset: 90498},
+															pos: position{line: 2860, col: 7, offset: 90586},
 															expr: &charClassMatcher{
-																pos:        position{line: 2859, col: 7, offset: 90498},
+																pos:        position{line: 2860, col: 7, offset: 90586},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45377,12 +45545,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 7, offset: 90498},
+														pos: position{line: 2860, col: 7, offset: 90586},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2859, col: 7, offset: 90498},
+															pos: position{line: 2860, col: 7, offset: 90586},
 															expr: &charClassMatcher{
-																pos:        position{line: 2859, col: 7, offset: 90498},
+																pos:        position{line: 2860, col: 7, offset: 90586},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45424,17 +45592,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40695},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2764, col: 13, offset: 87941},
+																		pos:        position{line: 2765, col: 13, offset: 88029},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2874, col: 10, offset: 90846},
+																		pos: position{line: 2875, col: 10, offset: 90934},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2874, col: 10, offset: 90846},
+																			pos:        position{line: 2875, col: 10, offset: 90934},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45460,10 +45628,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40409},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45480,10 +45648,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40420},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45503,17 +45671,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2764, col: 13, offset: 87941},
+																							pos:        position{line: 2765, col: 13, offset: 88029},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45544,10 +45712,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40501},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45564,10 +45732,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40512},
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 10, offset: 90846},
+																			pos: position{line: 2875, col: 10, offset: 90934},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 10, offset: 90846},
+																				pos:        position{line: 2875, col: 10, offset: 90934},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45587,17 +45755,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40695},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2764, col: 13, offset: 87941},
+																							pos:        position{line: 2765, col: 13, offset: 88029},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2874, col: 10, offset: 90846},
+																							pos: position{line: 2875, col: 10, offset: 90934},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2874, col: 10, offset: 90846},
+																								pos:        position{line: 2875, col: 10, offset: 90934},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45624,15 +45792,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78453},
+										pos:  position{line: 2432, col: 11, offset: 78541},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78473},
+										pos:  position{line: 2433, col: 11, offset: 78561},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78496},
+										pos:  position{line: 2434, col: 11, offset: 78584},
 										name: "InlineMenu",
 									},
 								},
@@ -45644,22 +45812,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2437, col: 1, offset: 78553},
+			pos:  position{line: 2438, col: 1, offset: 78641},
 			expr: &actionExpr{
-				pos: position{line: 2439, col: 5, offset: 78641},
+				pos: position{line: 2440, col: 5, offset: 78729},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2439, col: 5, offset: 78641},
+					pos: position{line: 2440, col: 5, offset: 78729},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2439, col: 5, offset: 78641},
+							pos: position{line: 2440, col: 5, offset: 78729},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2442, col: 5, offset: 78718},
+							pos:   position{line: 2443, col: 5, offset: 78806},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2443, col: 9, offset: 78736},
+								pos: position{line: 2444, col: 9, offset: 78824},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 43964},
@@ -45714,10 +45882,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44410},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 10, offset: 90846},
+																					pos: position{line: 2875, col: 10, offset: 90934},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2874, col: 10, offset: 90846},
+																						pos:        position{line: 2875, col: 10, offset: 90934},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45728,25 +45896,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44417},
 																				expr: &actionExpr{
-																					pos: position{line: 2883, col: 12, offset: 91017},
+																					pos: position{line: 2884, col: 12, offset: 91105},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2883, col: 13, offset: 91018},
+																						pos: position{line: 2884, col: 13, offset: 91106},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 13, offset: 91018},
+																								pos:        position{line: 2884, col: 13, offset: 91106},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 20, offset: 91025},
+																								pos:        position{line: 2884, col: 20, offset: 91113},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2883, col: 29, offset: 91034},
+																								pos:        position{line: 2884, col: 29, offset: 91122},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45783,7 +45951,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44059},
 													expr: &charClassMatcher{
-														pos:        position{line: 2764, col: 13, offset: 87941},
+														pos:        position{line: 2765, col: 13, offset: 88029},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45829,10 +45997,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43519},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45843,25 +46011,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43526},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45884,12 +46052,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43541},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2878, col: 11, offset: 90907},
+																									pos: position{line: 2879, col: 11, offset: 90995},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2878, col: 11, offset: 90907},
+																										pos: position{line: 2879, col: 11, offset: 90995},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 11, offset: 90907},
+																											pos:        position{line: 2879, col: 11, offset: 90995},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45918,25 +46086,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43606},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 12, offset: 91017},
+																							pos: position{line: 2884, col: 12, offset: 91105},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2883, col: 13, offset: 91018},
+																								pos: position{line: 2884, col: 13, offset: 91106},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 13, offset: 91018},
+																										pos:        position{line: 2884, col: 13, offset: 91106},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 20, offset: 91025},
+																										pos:        position{line: 2884, col: 20, offset: 91113},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2883, col: 29, offset: 91034},
+																										pos:        position{line: 2884, col: 29, offset: 91122},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45963,10 +46131,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43766},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 10, offset: 90846},
+																				pos: position{line: 2875, col: 10, offset: 90934},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 10, offset: 90846},
+																					pos:        position{line: 2875, col: 10, offset: 90934},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45977,25 +46145,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43773},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 12, offset: 91017},
+																				pos: position{line: 2884, col: 12, offset: 91105},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 13, offset: 91018},
+																					pos: position{line: 2884, col: 13, offset: 91106},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 13, offset: 91018},
+																							pos:        position{line: 2884, col: 13, offset: 91106},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 20, offset: 91025},
+																							pos:        position{line: 2884, col: 20, offset: 91113},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2883, col: 29, offset: 91034},
+																							pos:        position{line: 2884, col: 29, offset: 91122},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46031,7 +46199,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43342},
 													expr: &charClassMatcher{
-														pos:        position{line: 2764, col: 13, offset: 87941},
+														pos:        position{line: 2765, col: 13, offset: 88029},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46042,7 +46210,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 57, offset: 78784},
+										pos:  position{line: 2444, col: 57, offset: 78872},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46054,16 +46222,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2448, col: 1, offset: 78844},
+			pos:  position{line: 2449, col: 1, offset: 78932},
 			expr: &seqExpr{
-				pos: position{line: 2450, col: 5, offset: 78920},
+				pos: position{line: 2451, col: 5, offset: 79008},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2450, col: 5, offset: 78920},
+						pos: position{line: 2451, col: 5, offset: 79008},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2453, col: 5, offset: 78985},
+						pos:  position{line: 2454, col: 5, offset: 79073},
 						name: "QuotedText",
 					},
 				},
@@ -46071,22 +46239,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2455, col: 1, offset: 78998},
+			pos:  position{line: 2456, col: 1, offset: 79086},
 			expr: &actionExpr{
-				pos: position{line: 2457, col: 5, offset: 79080},
+				pos: position{line: 2458, col: 5, offset: 79168},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2457, col: 5, offset: 79080},
+					pos: position{line: 2458, col: 5, offset: 79168},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2457, col: 5, offset: 79080},
+							pos: position{line: 2458, col: 5, offset: 79168},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2460, col: 5, offset: 79151},
+							pos:   position{line: 2461, col: 5, offset: 79239},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2461, col: 9, offset: 79169},
+								pos:  position{line: 2462, col: 9, offset: 79257},
 								name: "Symbol",
 							},
 						},
@@ -46096,103 +46264,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2519, col: 1, offset: 80999},
+			pos:  position{line: 2520, col: 1, offset: 81087},
 			expr: &choiceExpr{
-				pos: position{line: 2521, col: 5, offset: 81029},
+				pos: position{line: 2522, col: 5, offset: 81117},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2521, col: 5, offset: 81029},
+						pos: position{line: 2522, col: 5, offset: 81117},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 5, offset: 81029},
+							pos: position{line: 2522, col: 5, offset: 81117},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 5, offset: 81029},
+									pos:        position{line: 2522, col: 5, offset: 81117},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2521, col: 10, offset: 81034},
+									pos: position{line: 2522, col: 10, offset: 81122},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2521, col: 10, offset: 81034},
+											pos:  position{line: 2522, col: 10, offset: 81122},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2550, col: 14, offset: 82138},
+											pos: position{line: 2551, col: 14, offset: 82226},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2550, col: 14, offset: 82138},
+												pos:        position{line: 2551, col: 14, offset: 82226},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2554, col: 14, offset: 82204},
+											pos: position{line: 2555, col: 14, offset: 82292},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2554, col: 14, offset: 82204},
+												pos:        position{line: 2555, col: 14, offset: 82292},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2558, col: 15, offset: 82273},
+											pos: position{line: 2559, col: 15, offset: 82361},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2558, col: 15, offset: 82273},
+												pos:        position{line: 2559, col: 15, offset: 82361},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2562, col: 13, offset: 82338},
+											pos: position{line: 2563, col: 13, offset: 82426},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2562, col: 13, offset: 82338},
+												pos:        position{line: 2563, col: 13, offset: 82426},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2590, col: 21, offset: 82908},
+											pos: position{line: 2591, col: 21, offset: 82996},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2590, col: 21, offset: 82908},
+												pos:        position{line: 2591, col: 21, offset: 82996},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2569, col: 5, offset: 82494},
+											pos: position{line: 2570, col: 5, offset: 82582},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2569, col: 5, offset: 82494},
+												pos: position{line: 2570, col: 5, offset: 82582},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2569, col: 5, offset: 82494},
+														pos:        position{line: 2570, col: 5, offset: 82582},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2570, col: 5, offset: 82504},
+														pos: position{line: 2571, col: 5, offset: 82592},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2574, col: 6, offset: 82591},
+														pos: position{line: 2575, col: 6, offset: 82679},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 10, offset: 90846},
+																pos: position{line: 2875, col: 10, offset: 90934},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 10, offset: 90846},
+																	pos:        position{line: 2875, col: 10, offset: 90934},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46200,30 +46368,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2574, col: 14, offset: 82599},
+																pos: position{line: 2575, col: 14, offset: 82687},
 																expr: &choiceExpr{
-																	pos: position{line: 2896, col: 8, offset: 91244},
+																	pos: position{line: 2897, col: 8, offset: 91332},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2883, col: 12, offset: 91017},
+																			pos: position{line: 2884, col: 12, offset: 91105},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2883, col: 13, offset: 91018},
+																				pos: position{line: 2884, col: 13, offset: 91106},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 13, offset: 91018},
+																						pos:        position{line: 2884, col: 13, offset: 91106},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 20, offset: 91025},
+																						pos:        position{line: 2884, col: 20, offset: 91113},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2883, col: 29, offset: 91034},
+																						pos:        position{line: 2884, col: 29, offset: 91122},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46232,9 +46400,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2893, col: 8, offset: 91194},
+																			pos: position{line: 2894, col: 8, offset: 91282},
 																			expr: &anyMatcher{
-																				line: 2893, col: 9, offset: 91195,
+																				line: 2894, col: 9, offset: 91283,
 																			},
 																		},
 																	},
@@ -46246,53 +46414,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2579, col: 5, offset: 82719},
+											pos: position{line: 2580, col: 5, offset: 82807},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2579, col: 5, offset: 82719},
+												pos: position{line: 2580, col: 5, offset: 82807},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2579, col: 5, offset: 82719},
+														pos:        position{line: 2580, col: 5, offset: 82807},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2580, col: 5, offset: 82729},
+														pos: position{line: 2581, col: 5, offset: 82817},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2584, col: 5, offset: 82818},
+														pos: position{line: 2585, col: 5, offset: 82906},
 														expr: &choiceExpr{
-															pos: position{line: 2584, col: 7, offset: 82820},
+															pos: position{line: 2585, col: 7, offset: 82908},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2764, col: 13, offset: 87941},
+																	pos:        position{line: 2765, col: 13, offset: 88029},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2883, col: 12, offset: 91017},
+																	pos: position{line: 2884, col: 12, offset: 91105},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2883, col: 13, offset: 91018},
+																		pos: position{line: 2884, col: 13, offset: 91106},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 13, offset: 91018},
+																				pos:        position{line: 2884, col: 13, offset: 91106},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 20, offset: 91025},
+																				pos:        position{line: 2884, col: 20, offset: 91113},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2883, col: 29, offset: 91034},
+																				pos:        position{line: 2884, col: 29, offset: 91122},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46301,9 +46469,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -46313,30 +46481,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2594, col: 20, offset: 82978},
+											pos: position{line: 2595, col: 20, offset: 83066},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2594, col: 20, offset: 82978},
+												pos:        position{line: 2595, col: 20, offset: 83066},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2598, col: 21, offset: 83049},
+											pos: position{line: 2599, col: 21, offset: 83137},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2598, col: 21, offset: 83049},
+												pos:        position{line: 2599, col: 21, offset: 83137},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 20, offset: 83119},
+											pos: position{line: 2603, col: 20, offset: 83207},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2602, col: 20, offset: 83119},
+												pos:        position{line: 2603, col: 20, offset: 83207},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46348,73 +46516,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2525, col: 7, offset: 81289},
+						pos:  position{line: 2526, col: 7, offset: 81377},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 14, offset: 82138},
+						pos: position{line: 2551, col: 14, offset: 82226},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2550, col: 14, offset: 82138},
+							pos:        position{line: 2551, col: 14, offset: 82226},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2554, col: 14, offset: 82204},
+						pos: position{line: 2555, col: 14, offset: 82292},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2554, col: 14, offset: 82204},
+							pos:        position{line: 2555, col: 14, offset: 82292},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 15, offset: 82273},
+						pos: position{line: 2559, col: 15, offset: 82361},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2558, col: 15, offset: 82273},
+							pos:        position{line: 2559, col: 15, offset: 82361},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 13, offset: 82338},
+						pos: position{line: 2563, col: 13, offset: 82426},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2562, col: 13, offset: 82338},
+							pos:        position{line: 2563, col: 13, offset: 82426},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2569, col: 5, offset: 82494},
+						pos: position{line: 2570, col: 5, offset: 82582},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2569, col: 5, offset: 82494},
+							pos: position{line: 2570, col: 5, offset: 82582},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2569, col: 5, offset: 82494},
+									pos:        position{line: 2570, col: 5, offset: 82582},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2570, col: 5, offset: 82504},
+									pos: position{line: 2571, col: 5, offset: 82592},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2574, col: 6, offset: 82591},
+									pos: position{line: 2575, col: 6, offset: 82679},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2874, col: 10, offset: 90846},
+											pos: position{line: 2875, col: 10, offset: 90934},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 10, offset: 90846},
+												pos:        position{line: 2875, col: 10, offset: 90934},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46422,30 +46590,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2574, col: 14, offset: 82599},
+											pos: position{line: 2575, col: 14, offset: 82687},
 											expr: &choiceExpr{
-												pos: position{line: 2896, col: 8, offset: 91244},
+												pos: position{line: 2897, col: 8, offset: 91332},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2883, col: 12, offset: 91017},
+														pos: position{line: 2884, col: 12, offset: 91105},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2883, col: 13, offset: 91018},
+															pos: position{line: 2884, col: 13, offset: 91106},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2883, col: 13, offset: 91018},
+																	pos:        position{line: 2884, col: 13, offset: 91106},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 20, offset: 91025},
+																	pos:        position{line: 2884, col: 20, offset: 91113},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2883, col: 29, offset: 91034},
+																	pos:        position{line: 2884, col: 29, offset: 91122},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46454,9 +46622,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2893, col: 8, offset: 91194},
+														pos: position{line: 2894, col: 8, offset: 91282},
 														expr: &anyMatcher{
-															line: 2893, col: 9, offset: 91195,
+															line: 2894, col: 9, offset: 91283,
 														},
 													},
 												},
@@ -46468,53 +46636,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2579, col: 5, offset: 82719},
+						pos: position{line: 2580, col: 5, offset: 82807},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2579, col: 5, offset: 82719},
+							pos: position{line: 2580, col: 5, offset: 82807},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2579, col: 5, offset: 82719},
+									pos:        position{line: 2580, col: 5, offset: 82807},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2580, col: 5, offset: 82729},
+									pos: position{line: 2581, col: 5, offset: 82817},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2584, col: 5, offset: 82818},
+									pos: position{line: 2585, col: 5, offset: 82906},
 									expr: &choiceExpr{
-										pos: position{line: 2584, col: 7, offset: 82820},
+										pos: position{line: 2585, col: 7, offset: 82908},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2764, col: 13, offset: 87941},
+												pos:        position{line: 2765, col: 13, offset: 88029},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2883, col: 12, offset: 91017},
+												pos: position{line: 2884, col: 12, offset: 91105},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2883, col: 13, offset: 91018},
+													pos: position{line: 2884, col: 13, offset: 91106},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2883, col: 13, offset: 91018},
+															pos:        position{line: 2884, col: 13, offset: 91106},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2883, col: 20, offset: 91025},
+															pos:        position{line: 2884, col: 20, offset: 91113},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2883, col: 29, offset: 91034},
+															pos:        position{line: 2884, col: 29, offset: 91122},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46523,9 +46691,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2893, col: 8, offset: 91194},
+												pos: position{line: 2894, col: 8, offset: 91282},
 												expr: &anyMatcher{
-													line: 2893, col: 9, offset: 91195,
+													line: 2894, col: 9, offset: 91283,
 												},
 											},
 										},
@@ -46535,40 +46703,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 21, offset: 82908},
+						pos: position{line: 2591, col: 21, offset: 82996},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2590, col: 21, offset: 82908},
+							pos:        position{line: 2591, col: 21, offset: 82996},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 20, offset: 82978},
+						pos: position{line: 2595, col: 20, offset: 83066},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2594, col: 20, offset: 82978},
+							pos:        position{line: 2595, col: 20, offset: 83066},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2598, col: 21, offset: 83049},
+						pos: position{line: 2599, col: 21, offset: 83137},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2598, col: 21, offset: 83049},
+							pos:        position{line: 2599, col: 21, offset: 83137},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 20, offset: 83119},
+						pos: position{line: 2603, col: 20, offset: 83207},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2602, col: 20, offset: 83119},
+							pos:        position{line: 2603, col: 20, offset: 83207},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46579,43 +46747,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2536, col: 1, offset: 81479},
+			pos:  position{line: 2537, col: 1, offset: 81567},
 			expr: &choiceExpr{
-				pos: position{line: 2537, col: 5, offset: 81501},
+				pos: position{line: 2538, col: 5, offset: 81589},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2537, col: 5, offset: 81501},
+						pos: position{line: 2538, col: 5, offset: 81589},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2537, col: 5, offset: 81501},
+							pos: position{line: 2538, col: 5, offset: 81589},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2537, col: 5, offset: 81501},
+									pos:        position{line: 2538, col: 5, offset: 81589},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2537, col: 11, offset: 81507},
+									pos: position{line: 2538, col: 11, offset: 81595},
 									expr: &seqExpr{
-										pos: position{line: 2079, col: 5, offset: 67166},
+										pos: position{line: 2080, col: 5, offset: 67198},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2079, col: 5, offset: 67166},
+												pos:        position{line: 2080, col: 5, offset: 67198},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2080, col: 5, offset: 67175},
+												pos: position{line: 2081, col: 5, offset: 67207},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2084, col: 5, offset: 67298},
+												pos: position{line: 2085, col: 5, offset: 67330},
 												expr: &notExpr{
-													pos: position{line: 2084, col: 7, offset: 67300},
+													pos: position{line: 2085, col: 7, offset: 67332},
 													expr: &litMatcher{
-														pos:        position{line: 2084, col: 8, offset: 67301},
+														pos:        position{line: 2085, col: 8, offset: 67333},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46629,21 +46797,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 7, offset: 81660},
+						pos: position{line: 2541, col: 7, offset: 81748},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2540, col: 7, offset: 81660},
+							pos: position{line: 2541, col: 7, offset: 81748},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2540, col: 7, offset: 81660},
+									pos:        position{line: 2541, col: 7, offset: 81748},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2540, col: 13, offset: 81666},
+									pos: position{line: 2541, col: 13, offset: 81754},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2540, col: 14, offset: 81667},
+										pos:  position{line: 2541, col: 14, offset: 81755},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46651,38 +46819,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 7, offset: 81817},
+						pos: position{line: 2544, col: 7, offset: 81905},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 7, offset: 81817},
+							pos: position{line: 2544, col: 7, offset: 81905},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 7, offset: 81817},
+									pos:        position{line: 2544, col: 7, offset: 81905},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2543, col: 12, offset: 81822},
+									pos: position{line: 2544, col: 12, offset: 81910},
 									expr: &seqExpr{
-										pos: position{line: 2079, col: 5, offset: 67166},
+										pos: position{line: 2080, col: 5, offset: 67198},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2079, col: 5, offset: 67166},
+												pos:        position{line: 2080, col: 5, offset: 67198},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2080, col: 5, offset: 67175},
+												pos: position{line: 2081, col: 5, offset: 67207},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2084, col: 5, offset: 67298},
+												pos: position{line: 2085, col: 5, offset: 67330},
 												expr: &notExpr{
-													pos: position{line: 2084, col: 7, offset: 67300},
+													pos: position{line: 2085, col: 7, offset: 67332},
 													expr: &litMatcher{
-														pos:        position{line: 2084, col: 8, offset: 67301},
+														pos:        position{line: 2085, col: 8, offset: 67333},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46696,21 +46864,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 7, offset: 81975},
+						pos: position{line: 2547, col: 7, offset: 82063},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 7, offset: 81975},
+							pos: position{line: 2547, col: 7, offset: 82063},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 7, offset: 81975},
+									pos:        position{line: 2547, col: 7, offset: 82063},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2546, col: 12, offset: 81980},
+									pos: position{line: 2547, col: 12, offset: 82068},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2546, col: 13, offset: 81981},
+										pos:  position{line: 2547, col: 13, offset: 82069},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46722,63 +46890,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2679, col: 1, offset: 85021},
+			pos:  position{line: 2680, col: 1, offset: 85109},
 			expr: &actionExpr{
-				pos: position{line: 2679, col: 26, offset: 85046},
+				pos: position{line: 2680, col: 26, offset: 85134},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2679, col: 26, offset: 85046},
+					pos: position{line: 2680, col: 26, offset: 85134},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2679, col: 26, offset: 85046},
+							pos:   position{line: 2680, col: 26, offset: 85134},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2679, col: 31, offset: 85051},
+								pos: position{line: 2680, col: 31, offset: 85139},
 								expr: &actionExpr{
-									pos: position{line: 2684, col: 5, offset: 85114},
+									pos: position{line: 2685, col: 5, offset: 85202},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2684, col: 5, offset: 85114},
+										pos: position{line: 2685, col: 5, offset: 85202},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2891, col: 11, offset: 91180},
+												pos: position{line: 2892, col: 11, offset: 91268},
 												expr: &anyMatcher{
-													line: 2891, col: 13, offset: 91182,
+													line: 2892, col: 13, offset: 91270,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85240},
+												pos:   position{line: 2688, col: 5, offset: 85328},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 16, offset: 85251},
+													pos: position{line: 2688, col: 16, offset: 85339},
 													expr: &actionExpr{
-														pos: position{line: 2687, col: 17, offset: 85252},
+														pos: position{line: 2688, col: 17, offset: 85340},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2687, col: 17, offset: 85252},
+															pos: position{line: 2688, col: 17, offset: 85340},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2687, col: 17, offset: 85252},
+																	pos:   position{line: 2688, col: 17, offset: 85340},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 12, offset: 90673},
+																		pos: position{line: 2867, col: 12, offset: 90761},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2866, col: 13, offset: 90674},
+																			pos: position{line: 2867, col: 13, offset: 90762},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2866, col: 13, offset: 90674},
+																					pos: position{line: 2867, col: 13, offset: 90762},
 																					expr: &litMatcher{
-																						pos:        position{line: 2866, col: 13, offset: 90674},
+																						pos:        position{line: 2867, col: 13, offset: 90762},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2866, col: 18, offset: 90679},
+																					pos: position{line: 2867, col: 18, offset: 90767},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 18, offset: 90679},
+																						pos:        position{line: 2867, col: 18, offset: 90767},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46790,7 +46958,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2687, col: 27, offset: 85262},
+																	pos:        position{line: 2688, col: 27, offset: 85350},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46801,38 +46969,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85290},
+												pos:   position{line: 2689, col: 5, offset: 85378},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 12, offset: 85297},
+													pos: position{line: 2689, col: 12, offset: 85385},
 													expr: &choiceExpr{
-														pos: position{line: 2689, col: 9, offset: 85307},
+														pos: position{line: 2690, col: 9, offset: 85395},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2689, col: 9, offset: 85307},
+																pos: position{line: 2690, col: 9, offset: 85395},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 9, offset: 85307},
+																	pos:        position{line: 2690, col: 9, offset: 85395},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 11, offset: 85354},
+																pos: position{line: 2691, col: 11, offset: 85442},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 11, offset: 85354},
+																	pos:        position{line: 2691, col: 11, offset: 85442},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2691, col: 11, offset: 85402},
+																pos: position{line: 2692, col: 11, offset: 85490},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 11, offset: 85402},
+																	pos:        position{line: 2692, col: 11, offset: 85490},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46843,38 +47011,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2693, col: 5, offset: 85452},
+												pos:   position{line: 2694, col: 5, offset: 85540},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2693, col: 12, offset: 85459},
+													pos: position{line: 2694, col: 12, offset: 85547},
 													expr: &choiceExpr{
-														pos: position{line: 2694, col: 9, offset: 85469},
+														pos: position{line: 2695, col: 9, offset: 85557},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2694, col: 9, offset: 85469},
+																pos: position{line: 2695, col: 9, offset: 85557},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 9, offset: 85469},
+																	pos:        position{line: 2695, col: 9, offset: 85557},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2695, col: 11, offset: 85516},
+																pos: position{line: 2696, col: 11, offset: 85604},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 11, offset: 85516},
+																	pos:        position{line: 2696, col: 11, offset: 85604},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2696, col: 11, offset: 85566},
+																pos: position{line: 2697, col: 11, offset: 85654},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 11, offset: 85566},
+																	pos:        position{line: 2697, col: 11, offset: 85654},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46885,32 +47053,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2698, col: 5, offset: 85617},
+												pos:   position{line: 2699, col: 5, offset: 85705},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2698, col: 12, offset: 85624},
+													pos: position{line: 2699, col: 12, offset: 85712},
 													expr: &choiceExpr{
-														pos: position{line: 2698, col: 13, offset: 85625},
+														pos: position{line: 2699, col: 13, offset: 85713},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2866, col: 12, offset: 90673},
+																pos: position{line: 2867, col: 12, offset: 90761},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2866, col: 13, offset: 90674},
+																	pos: position{line: 2867, col: 13, offset: 90762},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2866, col: 13, offset: 90674},
+																			pos: position{line: 2867, col: 13, offset: 90762},
 																			expr: &litMatcher{
-																				pos:        position{line: 2866, col: 13, offset: 90674},
+																				pos:        position{line: 2867, col: 13, offset: 90762},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2866, col: 18, offset: 90679},
+																			pos: position{line: 2867, col: 18, offset: 90767},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 18, offset: 90679},
+																				pos:        position{line: 2867, col: 18, offset: 90767},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46921,10 +47089,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 24, offset: 85636},
+																pos: position{line: 2699, col: 24, offset: 85724},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 24, offset: 85636},
+																	pos:        position{line: 2699, col: 24, offset: 85724},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46935,15 +47103,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85678},
+												pos:   position{line: 2700, col: 5, offset: 85766},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 11, offset: 85684},
+													pos: position{line: 2700, col: 11, offset: 85772},
 													expr: &actionExpr{
-														pos: position{line: 2699, col: 12, offset: 85685},
+														pos: position{line: 2700, col: 12, offset: 85773},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2699, col: 12, offset: 85685},
+															pos:        position{line: 2700, col: 12, offset: 85773},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46953,12 +47121,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85815},
+												pos:   position{line: 2702, col: 5, offset: 85903},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 11, offset: 85821},
+													pos: position{line: 2702, col: 11, offset: 85909},
 													expr: &litMatcher{
-														pos:        position{line: 2701, col: 12, offset: 85822},
+														pos:        position{line: 2702, col: 12, offset: 85910},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46966,7 +47134,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2702, col: 5, offset: 85832},
+												pos: position{line: 2703, col: 5, offset: 85920},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46975,9 +47143,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2893, col: 8, offset: 91194},
+							pos: position{line: 2894, col: 8, offset: 91282},
 							expr: &anyMatcher{
-								line: 2893, col: 9, offset: 91195,
+								line: 2894, col: 9, offset: 91283,
 							},
 						},
 					},
@@ -46986,23 +47154,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2729, col: 1, offset: 86841},
+			pos:  position{line: 2730, col: 1, offset: 86929},
 			expr: &actionExpr{
-				pos: position{line: 2730, col: 5, offset: 86864},
+				pos: position{line: 2731, col: 5, offset: 86952},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2730, col: 5, offset: 86864},
+					pos: position{line: 2731, col: 5, offset: 86952},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2730, col: 5, offset: 86864},
+							pos:   position{line: 2731, col: 5, offset: 86952},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2753, col: 18, offset: 87605},
+								pos: position{line: 2754, col: 18, offset: 87693},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2753, col: 19, offset: 87606},
+									pos: position{line: 2754, col: 19, offset: 87694},
 									expr: &charClassMatcher{
-										pos:        position{line: 2753, col: 19, offset: 87606},
+										pos:        position{line: 2754, col: 19, offset: 87694},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47013,25 +47181,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2731, col: 5, offset: 86890},
+							pos: position{line: 2732, col: 5, offset: 86978},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2735, col: 5, offset: 87018},
+							pos:        position{line: 2736, col: 5, offset: 87106},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87028},
+							pos:   position{line: 2737, col: 5, offset: 87116},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2757, col: 19, offset: 87681},
+								pos: position{line: 2758, col: 19, offset: 87769},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2757, col: 19, offset: 87681},
+									pos: position{line: 2758, col: 19, offset: 87769},
 									expr: &charClassMatcher{
-										pos:        position{line: 2757, col: 19, offset: 87681},
+										pos:        position{line: 2758, col: 19, offset: 87769},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47041,36 +47209,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2737, col: 5, offset: 87056},
+							pos:   position{line: 2738, col: 5, offset: 87144},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2737, col: 17, offset: 87068},
+								pos:  position{line: 2738, col: 17, offset: 87156},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2896, col: 8, offset: 91244},
+							pos: position{line: 2897, col: 8, offset: 91332},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2883, col: 12, offset: 91017},
+									pos: position{line: 2884, col: 12, offset: 91105},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2883, col: 13, offset: 91018},
+										pos: position{line: 2884, col: 13, offset: 91106},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2883, col: 13, offset: 91018},
+												pos:        position{line: 2884, col: 13, offset: 91106},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 20, offset: 91025},
+												pos:        position{line: 2884, col: 20, offset: 91113},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2883, col: 29, offset: 91034},
+												pos:        position{line: 2884, col: 29, offset: 91122},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47079,9 +47247,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 8, offset: 91194},
+									pos: position{line: 2894, col: 8, offset: 91282},
 									expr: &anyMatcher{
-										line: 2893, col: 9, offset: 91195,
+										line: 2894, col: 9, offset: 91283,
 									},
 								},
 							},
@@ -47092,23 +47260,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2741, col: 1, offset: 87216},
+			pos:  position{line: 2742, col: 1, offset: 87304},
 			expr: &actionExpr{
-				pos: position{line: 2742, col: 5, offset: 87240},
+				pos: position{line: 2743, col: 5, offset: 87328},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2742, col: 5, offset: 87240},
+					pos: position{line: 2743, col: 5, offset: 87328},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2742, col: 5, offset: 87240},
+							pos:   position{line: 2743, col: 5, offset: 87328},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2753, col: 18, offset: 87605},
+								pos: position{line: 2754, col: 18, offset: 87693},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2753, col: 19, offset: 87606},
+									pos: position{line: 2754, col: 19, offset: 87694},
 									expr: &charClassMatcher{
-										pos:        position{line: 2753, col: 19, offset: 87606},
+										pos:        position{line: 2754, col: 19, offset: 87694},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47119,25 +47287,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2743, col: 5, offset: 87266},
+							pos: position{line: 2744, col: 5, offset: 87354},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2747, col: 5, offset: 87394},
+							pos:        position{line: 2748, col: 5, offset: 87482},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87403},
+							pos:   position{line: 2749, col: 5, offset: 87491},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2757, col: 19, offset: 87681},
+								pos: position{line: 2758, col: 19, offset: 87769},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2757, col: 19, offset: 87681},
+									pos: position{line: 2758, col: 19, offset: 87769},
 									expr: &charClassMatcher{
-										pos:        position{line: 2757, col: 19, offset: 87681},
+										pos:        position{line: 2758, col: 19, offset: 87769},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47147,10 +47315,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2749, col: 5, offset: 87431},
+							pos:   position{line: 2750, col: 5, offset: 87519},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2749, col: 17, offset: 87443},
+								pos:  position{line: 2750, col: 17, offset: 87531},
 								name: "InlineAttributes",
 							},
 						},
@@ -47160,43 +47328,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2828, col: 1, offset: 89493},
+			pos:  position{line: 2829, col: 1, offset: 89581},
 			expr: &actionExpr{
-				pos: position{line: 2828, col: 17, offset: 89509},
+				pos: position{line: 2829, col: 17, offset: 89597},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2828, col: 17, offset: 89509},
+					pos:   position{line: 2829, col: 17, offset: 89597},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2845, col: 5, offset: 89963},
+						pos: position{line: 2846, col: 5, offset: 90051},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2845, col: 5, offset: 89963},
+							pos:   position{line: 2846, col: 5, offset: 90051},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2845, col: 14, offset: 89972},
+								pos: position{line: 2846, col: 14, offset: 90060},
 								expr: &choiceExpr{
-									pos: position{line: 2846, col: 9, offset: 89982},
+									pos: position{line: 2847, col: 9, offset: 90070},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2846, col: 9, offset: 89982},
+											pos: position{line: 2847, col: 9, offset: 90070},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2846, col: 9, offset: 89982},
+												pos: position{line: 2847, col: 9, offset: 90070},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2846, col: 9, offset: 89982},
+														pos: position{line: 2847, col: 9, offset: 90070},
 														expr: &litMatcher{
-															pos:        position{line: 2846, col: 10, offset: 89983},
+															pos:        position{line: 2847, col: 10, offset: 90071},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2847, col: 9, offset: 90011},
+														pos: position{line: 2848, col: 9, offset: 90099},
 														expr: &charClassMatcher{
-															pos:        position{line: 2847, col: 10, offset: 90012},
+															pos:        position{line: 2848, col: 10, offset: 90100},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47207,27 +47375,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2850, col: 11, offset: 90224},
+											pos: position{line: 2851, col: 11, offset: 90312},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 11, offset: 90224},
+													pos:        position{line: 2851, col: 11, offset: 90312},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2850, col: 19, offset: 90232},
+													pos: position{line: 2851, col: 19, offset: 90320},
 													expr: &seqExpr{
-														pos: position{line: 2850, col: 21, offset: 90234},
+														pos: position{line: 2851, col: 21, offset: 90322},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2850, col: 21, offset: 90234},
+																pos: position{line: 2851, col: 21, offset: 90322},
 																expr: &actionExpr{
-																	pos: position{line: 2874, col: 10, offset: 90846},
+																	pos: position{line: 2875, col: 10, offset: 90934},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2874, col: 10, offset: 90846},
+																		pos:        position{line: 2875, col: 10, offset: 90934},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47236,11 +47404,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2850, col: 28, offset: 90241},
+																pos: position{line: 2851, col: 28, offset: 90329},
 																expr: &notExpr{
-																	pos: position{line: 2893, col: 8, offset: 91194},
+																	pos: position{line: 2894, col: 8, offset: 91282},
 																	expr: &anyMatcher{
-																		line: 2893, col: 9, offset: 91195,
+																		line: 2894, col: 9, offset: 91283,
 																	},
 																},
 															},
@@ -47635,10 +47803,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2853, col: 11, offset: 90361},
+											pos: position{line: 2854, col: 11, offset: 90449},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2853, col: 11, offset: 90361},
+												pos:        position{line: 2854, col: 11, offset: 90449},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -60404,51 +60572,51 @@ func (p *parser) callonListElements115() (interface{}, error) {
 	return p.cur.onListElements115(stack["ref"], stack["description"])
 }
 
-func (c *current) onListElements155() (interface{}, error) {
+func (c *current) onListElements161() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements155() (interface{}, error) {
+func (p *parser) callonListElements161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements155()
+	return p.cur.onListElements161()
 }
 
-func (c *current) onListElements158(separator interface{}) (bool, error) {
+func (c *current) onListElements164(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements158() (bool, error) {
+func (p *parser) callonListElements164() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements158(stack["separator"])
+	return p.cur.onListElements164(stack["separator"])
 }
 
-func (c *current) onListElements152(separator interface{}) (interface{}, error) {
+func (c *current) onListElements158(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements152() (interface{}, error) {
+func (p *parser) callonListElements158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements152(stack["separator"])
+	return p.cur.onListElements158(stack["separator"])
 }
 
-func (c *current) onListElements161() (interface{}, error) {
+func (c *current) onListElements167() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements161() (interface{}, error) {
+func (p *parser) callonListElements167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements161()
+	return p.cur.onListElements167()
 }
 
 func (c *current) onListElements148() (interface{}, error) {
@@ -60462,153 +60630,153 @@ func (p *parser) callonListElements148() (interface{}, error) {
 	return p.cur.onListElements148()
 }
 
-func (c *current) onListElements173() (interface{}, error) {
+func (c *current) onListElements179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements173() (interface{}, error) {
+func (p *parser) callonListElements179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements173()
+	return p.cur.onListElements179()
 }
 
-func (c *current) onListElements176(separator interface{}) (bool, error) {
+func (c *current) onListElements182(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements176() (bool, error) {
+func (p *parser) callonListElements182() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements176(stack["separator"])
+	return p.cur.onListElements182(stack["separator"])
 }
 
-func (c *current) onListElements170(separator interface{}) (interface{}, error) {
+func (c *current) onListElements176(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements170() (interface{}, error) {
+func (p *parser) callonListElements176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements170(stack["separator"])
+	return p.cur.onListElements176(stack["separator"])
 }
 
-func (c *current) onListElements182() (interface{}, error) {
+func (c *current) onListElements188() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements182() (interface{}, error) {
+func (p *parser) callonListElements188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements182()
+	return p.cur.onListElements188()
 }
 
-func (c *current) onListElements185() (interface{}, error) {
+func (c *current) onListElements191() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements185() (interface{}, error) {
+func (p *parser) callonListElements191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements185()
+	return p.cur.onListElements191()
 }
 
-func (c *current) onListElements198() (interface{}, error) {
+func (c *current) onListElements204() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements198() (interface{}, error) {
+func (p *parser) callonListElements204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements198()
+	return p.cur.onListElements204()
 }
 
-func (c *current) onListElements201() (interface{}, error) {
+func (c *current) onListElements207() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements201() (interface{}, error) {
+func (p *parser) callonListElements207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements201()
+	return p.cur.onListElements207()
 }
 
-func (c *current) onListElements193() (interface{}, error) {
+func (c *current) onListElements199() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListElements193() (interface{}, error) {
+func (p *parser) callonListElements199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements193()
+	return p.cur.onListElements199()
 }
 
-func (c *current) onListElements179() (interface{}, error) {
+func (c *current) onListElements185() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListElements179() (interface{}, error) {
+func (p *parser) callonListElements185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements179()
+	return p.cur.onListElements185()
 }
 
-func (c *current) onListElements210() (interface{}, error) {
+func (c *current) onListElements216() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements210() (interface{}, error) {
+func (p *parser) callonListElements216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements210()
+	return p.cur.onListElements216()
 }
 
-func (c *current) onListElements214() (interface{}, error) {
+func (c *current) onListElements220() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListElements214() (interface{}, error) {
+func (p *parser) callonListElements220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements214()
+	return p.cur.onListElements220()
 }
 
-func (c *current) onListElements218() (interface{}, error) {
+func (c *current) onListElements224() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements218() (interface{}, error) {
+func (p *parser) callonListElements224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements218()
+	return p.cur.onListElements224()
 }
 
-func (c *current) onListElements208(content interface{}) (interface{}, error) {
+func (c *current) onListElements214(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListElements208() (interface{}, error) {
+func (p *parser) callonListElements214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements208(stack["content"])
+	return p.cur.onListElements214(stack["content"])
 }
 
 func (c *current) onListElements145(term, separator, description interface{}) (interface{}, error) {
@@ -61097,51 +61265,51 @@ func (p *parser) callonExtraListElement137() (interface{}, error) {
 	return p.cur.onExtraListElement137(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement177() (interface{}, error) {
+func (c *current) onExtraListElement183() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement177() (interface{}, error) {
+func (p *parser) callonExtraListElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement177()
+	return p.cur.onExtraListElement183()
 }
 
-func (c *current) onExtraListElement180(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement186(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement180() (bool, error) {
+func (p *parser) callonExtraListElement186() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement180(stack["separator"])
+	return p.cur.onExtraListElement186(stack["separator"])
 }
 
-func (c *current) onExtraListElement174(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement180(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement174() (interface{}, error) {
+func (p *parser) callonExtraListElement180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement174(stack["separator"])
+	return p.cur.onExtraListElement180(stack["separator"])
 }
 
-func (c *current) onExtraListElement183() (interface{}, error) {
+func (c *current) onExtraListElement189() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement183() (interface{}, error) {
+func (p *parser) callonExtraListElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement183()
+	return p.cur.onExtraListElement189()
 }
 
 func (c *current) onExtraListElement170() (interface{}, error) {
@@ -61155,153 +61323,153 @@ func (p *parser) callonExtraListElement170() (interface{}, error) {
 	return p.cur.onExtraListElement170()
 }
 
-func (c *current) onExtraListElement195() (interface{}, error) {
+func (c *current) onExtraListElement201() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement195() (interface{}, error) {
+func (p *parser) callonExtraListElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement195()
+	return p.cur.onExtraListElement201()
 }
 
-func (c *current) onExtraListElement198(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement204(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement198() (bool, error) {
+func (p *parser) callonExtraListElement204() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement198(stack["separator"])
+	return p.cur.onExtraListElement204(stack["separator"])
 }
 
-func (c *current) onExtraListElement192(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement198(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement192() (interface{}, error) {
+func (p *parser) callonExtraListElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement192(stack["separator"])
+	return p.cur.onExtraListElement198(stack["separator"])
 }
 
-func (c *current) onExtraListElement204() (interface{}, error) {
+func (c *current) onExtraListElement210() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement204() (interface{}, error) {
+func (p *parser) callonExtraListElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement204()
+	return p.cur.onExtraListElement210()
 }
 
-func (c *current) onExtraListElement207() (interface{}, error) {
+func (c *current) onExtraListElement213() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement207() (interface{}, error) {
+func (p *parser) callonExtraListElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement207()
+	return p.cur.onExtraListElement213()
 }
 
-func (c *current) onExtraListElement220() (interface{}, error) {
+func (c *current) onExtraListElement226() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement220() (interface{}, error) {
+func (p *parser) callonExtraListElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement220()
+	return p.cur.onExtraListElement226()
 }
 
-func (c *current) onExtraListElement223() (interface{}, error) {
+func (c *current) onExtraListElement229() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement223() (interface{}, error) {
+func (p *parser) callonExtraListElement229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement223()
+	return p.cur.onExtraListElement229()
 }
 
-func (c *current) onExtraListElement215() (interface{}, error) {
+func (c *current) onExtraListElement221() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement215() (interface{}, error) {
+func (p *parser) callonExtraListElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement215()
+	return p.cur.onExtraListElement221()
 }
 
-func (c *current) onExtraListElement201() (interface{}, error) {
+func (c *current) onExtraListElement207() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement201() (interface{}, error) {
+func (p *parser) callonExtraListElement207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement201()
+	return p.cur.onExtraListElement207()
 }
 
-func (c *current) onExtraListElement232() (interface{}, error) {
+func (c *current) onExtraListElement238() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement232() (interface{}, error) {
+func (p *parser) callonExtraListElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement232()
+	return p.cur.onExtraListElement238()
 }
 
-func (c *current) onExtraListElement236() (interface{}, error) {
+func (c *current) onExtraListElement242() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement236() (interface{}, error) {
+func (p *parser) callonExtraListElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement236()
+	return p.cur.onExtraListElement242()
 }
 
-func (c *current) onExtraListElement240() (interface{}, error) {
+func (c *current) onExtraListElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement240() (interface{}, error) {
+func (p *parser) callonExtraListElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement240()
+	return p.cur.onExtraListElement246()
 }
 
-func (c *current) onExtraListElement230(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement236(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement230() (interface{}, error) {
+func (p *parser) callonExtraListElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement230(stack["content"])
+	return p.cur.onExtraListElement236(stack["content"])
 }
 
 func (c *current) onExtraListElement167(term, separator, description interface{}) (interface{}, error) {
@@ -61327,45 +61495,45 @@ func (p *parser) callonExtraListElement7() (interface{}, error) {
 	return p.cur.onExtraListElement7(stack["element"])
 }
 
-func (c *current) onExtraListElement260() (interface{}, error) {
+func (c *current) onExtraListElement266() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement260() (interface{}, error) {
+func (p *parser) callonExtraListElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement260()
+	return p.cur.onExtraListElement266()
 }
 
-func (c *current) onExtraListElement267() (interface{}, error) {
+func (c *current) onExtraListElement273() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement267() (interface{}, error) {
+func (p *parser) callonExtraListElement273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement267()
+	return p.cur.onExtraListElement273()
 }
 
-func (c *current) onExtraListElement270(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement276(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement270() (bool, error) {
+func (p *parser) callonExtraListElement276() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement270(stack["depth"])
+	return p.cur.onExtraListElement276(stack["depth"])
 }
 
-func (c *current) onExtraListElement264(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement270(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -61381,732 +61549,732 @@ func (c *current) onExtraListElement264(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement264() (interface{}, error) {
+func (p *parser) callonExtraListElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement264(stack["depth"])
+	return p.cur.onExtraListElement270(stack["depth"])
 }
 
-func (c *current) onExtraListElement271() (interface{}, error) {
+func (c *current) onExtraListElement277() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement271() (interface{}, error) {
+func (p *parser) callonExtraListElement277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement271()
+	return p.cur.onExtraListElement277()
 }
 
-func (c *current) onExtraListElement276() (interface{}, error) {
+func (c *current) onExtraListElement282() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement276() (interface{}, error) {
+func (p *parser) callonExtraListElement282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement276()
+	return p.cur.onExtraListElement282()
 }
 
-func (c *current) onExtraListElement280() (interface{}, error) {
+func (c *current) onExtraListElement286() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement280() (interface{}, error) {
+func (p *parser) callonExtraListElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement280()
+	return p.cur.onExtraListElement286()
 }
 
-func (c *current) onExtraListElement284() (interface{}, error) {
+func (c *current) onExtraListElement290() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement284() (interface{}, error) {
+func (p *parser) callonExtraListElement290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement284()
+	return p.cur.onExtraListElement290()
 }
 
-func (c *current) onExtraListElement289() (interface{}, error) {
+func (c *current) onExtraListElement295() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement289() (interface{}, error) {
+func (p *parser) callonExtraListElement295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement289()
+	return p.cur.onExtraListElement295()
 }
 
-func (c *current) onExtraListElement294(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement300(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement294() (interface{}, error) {
+func (p *parser) callonExtraListElement300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement294(stack["prefix"])
+	return p.cur.onExtraListElement300(stack["prefix"])
 }
 
-func (c *current) onExtraListElement257(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement263(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement257() (interface{}, error) {
+func (p *parser) callonExtraListElement263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement257(stack["prefix"])
+	return p.cur.onExtraListElement263(stack["prefix"])
 }
 
-func (c *current) onExtraListElement302() (interface{}, error) {
+func (c *current) onExtraListElement308() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement302() (interface{}, error) {
+func (p *parser) callonExtraListElement308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement302()
+	return p.cur.onExtraListElement308()
 }
 
-func (c *current) onExtraListElement306() (interface{}, error) {
+func (c *current) onExtraListElement312() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement306() (interface{}, error) {
+func (p *parser) callonExtraListElement312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement306()
+	return p.cur.onExtraListElement312()
 }
 
-func (c *current) onExtraListElement298(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement304(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement298() (interface{}, error) {
+func (p *parser) callonExtraListElement304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement298(stack["rawLines"])
+	return p.cur.onExtraListElement304(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement254(prefix, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement260(prefix, content interface{}) (interface{}, error) {
 	return types.NewOrderedListElement(prefix.(types.OrderedListElementPrefix), content)
 
 }
 
-func (p *parser) callonExtraListElement254() (interface{}, error) {
+func (p *parser) callonExtraListElement260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement254(stack["prefix"], stack["content"])
+	return p.cur.onExtraListElement260(stack["prefix"], stack["content"])
 }
 
-func (c *current) onExtraListElement319() (interface{}, error) {
+func (c *current) onExtraListElement325() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement319() (interface{}, error) {
+func (p *parser) callonExtraListElement325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement319()
+	return p.cur.onExtraListElement325()
 }
 
-func (c *current) onExtraListElement322() (interface{}, error) {
+func (c *current) onExtraListElement328() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement322() (interface{}, error) {
+func (p *parser) callonExtraListElement328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement322()
+	return p.cur.onExtraListElement328()
 }
 
-func (c *current) onExtraListElement327(style interface{}) (bool, error) {
+func (c *current) onExtraListElement333(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement327() (bool, error) {
+func (p *parser) callonExtraListElement333() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement327(stack["style"])
+	return p.cur.onExtraListElement333(stack["style"])
 }
 
-func (c *current) onExtraListElement328(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement334(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement328() (interface{}, error) {
+func (p *parser) callonExtraListElement334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement328(stack["style"])
+	return p.cur.onExtraListElement334(stack["style"])
 }
 
-func (c *current) onExtraListElement316(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement322(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement316() (interface{}, error) {
+func (p *parser) callonExtraListElement322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement316(stack["style"])
+	return p.cur.onExtraListElement322(stack["style"])
 }
 
-func (c *current) onExtraListElement339() (interface{}, error) {
+func (c *current) onExtraListElement345() (interface{}, error) {
 	return types.Unchecked, nil
 }
 
-func (p *parser) callonExtraListElement339() (interface{}, error) {
+func (p *parser) callonExtraListElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement339()
+	return p.cur.onExtraListElement345()
 }
 
-func (c *current) onExtraListElement341() (interface{}, error) {
+func (c *current) onExtraListElement347() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement341() (interface{}, error) {
+func (p *parser) callonExtraListElement347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement341()
+	return p.cur.onExtraListElement347()
 }
 
-func (c *current) onExtraListElement343() (interface{}, error) {
+func (c *current) onExtraListElement349() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement343() (interface{}, error) {
+func (p *parser) callonExtraListElement349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement343()
+	return p.cur.onExtraListElement349()
 }
 
-func (c *current) onExtraListElement345(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement351(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement345() (interface{}, error) {
+func (p *parser) callonExtraListElement351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement345(stack["style"])
+	return p.cur.onExtraListElement351(stack["style"])
 }
 
-func (c *current) onExtraListElement333(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement339(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonExtraListElement333() (interface{}, error) {
+func (p *parser) callonExtraListElement339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement333(stack["style"])
+	return p.cur.onExtraListElement339(stack["style"])
 }
 
-func (c *current) onExtraListElement353() (interface{}, error) {
+func (c *current) onExtraListElement359() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement353() (interface{}, error) {
+func (p *parser) callonExtraListElement359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement353()
+	return p.cur.onExtraListElement359()
 }
 
-func (c *current) onExtraListElement357() (interface{}, error) {
+func (c *current) onExtraListElement363() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement357() (interface{}, error) {
+func (p *parser) callonExtraListElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement357()
+	return p.cur.onExtraListElement363()
 }
 
-func (c *current) onExtraListElement349(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement355(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement349() (interface{}, error) {
+func (p *parser) callonExtraListElement355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement349(stack["rawLines"])
+	return p.cur.onExtraListElement355(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement313(prefix, checkstyle, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement319(prefix, checkstyle, content interface{}) (interface{}, error) {
 	return types.NewUnorderedListElement(prefix.(types.UnorderedListElementPrefix), checkstyle, content)
 
 }
 
-func (p *parser) callonExtraListElement313() (interface{}, error) {
+func (p *parser) callonExtraListElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement313(stack["prefix"], stack["checkstyle"], stack["content"])
+	return p.cur.onExtraListElement319(stack["prefix"], stack["checkstyle"], stack["content"])
 }
 
-func (c *current) onExtraListElement371() (interface{}, error) {
+func (c *current) onExtraListElement377() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement371() (interface{}, error) {
+func (p *parser) callonExtraListElement377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement371()
+	return p.cur.onExtraListElement377()
 }
 
-func (c *current) onExtraListElement375(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement381(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement375() (interface{}, error) {
+func (p *parser) callonExtraListElement381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement375(stack["ref"])
+	return p.cur.onExtraListElement381(stack["ref"])
 }
 
-func (c *current) onExtraListElement367(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement373(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement367() (interface{}, error) {
+func (p *parser) callonExtraListElement373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement367(stack["ref"])
+	return p.cur.onExtraListElement373(stack["ref"])
 }
 
-func (c *current) onExtraListElement383() (interface{}, error) {
+func (c *current) onExtraListElement389() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement383() (interface{}, error) {
+func (p *parser) callonExtraListElement389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement383()
+	return p.cur.onExtraListElement389()
 }
 
-func (c *current) onExtraListElement387() (interface{}, error) {
+func (c *current) onExtraListElement393() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement387() (interface{}, error) {
+func (p *parser) callonExtraListElement393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement387()
+	return p.cur.onExtraListElement393()
 }
 
-func (c *current) onExtraListElement379(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement385(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement379() (interface{}, error) {
+func (p *parser) callonExtraListElement385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement379(stack["rawLines"])
+	return p.cur.onExtraListElement385(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement364(ref, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement370(ref, description interface{}) (interface{}, error) {
 	return types.NewCalloutListElement(ref.(int), description.(*types.Paragraph))
 
 }
 
-func (p *parser) callonExtraListElement364() (interface{}, error) {
+func (p *parser) callonExtraListElement370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement364(stack["ref"], stack["description"])
+	return p.cur.onExtraListElement370(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement404() (interface{}, error) {
+func (c *current) onExtraListElement416() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement404() (interface{}, error) {
+func (p *parser) callonExtraListElement416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement404()
+	return p.cur.onExtraListElement416()
 }
 
-func (c *current) onExtraListElement407(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement419(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement407() (bool, error) {
+func (p *parser) callonExtraListElement419() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement407(stack["separator"])
+	return p.cur.onExtraListElement419(stack["separator"])
 }
 
-func (c *current) onExtraListElement401(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement413(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement401() (interface{}, error) {
+func (p *parser) callonExtraListElement413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement401(stack["separator"])
+	return p.cur.onExtraListElement413(stack["separator"])
 }
 
-func (c *current) onExtraListElement410() (interface{}, error) {
+func (c *current) onExtraListElement422() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement410() (interface{}, error) {
+func (p *parser) callonExtraListElement422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement410()
+	return p.cur.onExtraListElement422()
 }
 
-func (c *current) onExtraListElement397() (interface{}, error) {
+func (c *current) onExtraListElement403() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement397() (interface{}, error) {
+func (p *parser) callonExtraListElement403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement397()
+	return p.cur.onExtraListElement403()
 }
 
-func (c *current) onExtraListElement422() (interface{}, error) {
+func (c *current) onExtraListElement434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement422() (interface{}, error) {
+func (p *parser) callonExtraListElement434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement422()
+	return p.cur.onExtraListElement434()
 }
 
-func (c *current) onExtraListElement425(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement437(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement425() (bool, error) {
+func (p *parser) callonExtraListElement437() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement425(stack["separator"])
+	return p.cur.onExtraListElement437(stack["separator"])
 }
 
-func (c *current) onExtraListElement419(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement431(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement419() (interface{}, error) {
+func (p *parser) callonExtraListElement431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement419(stack["separator"])
+	return p.cur.onExtraListElement431(stack["separator"])
 }
 
-func (c *current) onExtraListElement431() (interface{}, error) {
+func (c *current) onExtraListElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement431() (interface{}, error) {
+func (p *parser) callonExtraListElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement431()
+	return p.cur.onExtraListElement443()
 }
 
-func (c *current) onExtraListElement434() (interface{}, error) {
+func (c *current) onExtraListElement446() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement434() (interface{}, error) {
+func (p *parser) callonExtraListElement446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement434()
+	return p.cur.onExtraListElement446()
 }
 
-func (c *current) onExtraListElement447() (interface{}, error) {
+func (c *current) onExtraListElement459() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement447() (interface{}, error) {
+func (p *parser) callonExtraListElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement447()
+	return p.cur.onExtraListElement459()
 }
 
-func (c *current) onExtraListElement450() (interface{}, error) {
+func (c *current) onExtraListElement462() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement450() (interface{}, error) {
+func (p *parser) callonExtraListElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement450()
+	return p.cur.onExtraListElement462()
 }
 
-func (c *current) onExtraListElement442() (interface{}, error) {
+func (c *current) onExtraListElement454() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement442() (interface{}, error) {
+func (p *parser) callonExtraListElement454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement442()
+	return p.cur.onExtraListElement454()
 }
 
-func (c *current) onExtraListElement428() (interface{}, error) {
+func (c *current) onExtraListElement440() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement428() (interface{}, error) {
+func (p *parser) callonExtraListElement440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement428()
+	return p.cur.onExtraListElement440()
 }
 
-func (c *current) onExtraListElement459() (interface{}, error) {
+func (c *current) onExtraListElement471() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement459() (interface{}, error) {
+func (p *parser) callonExtraListElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement459()
+	return p.cur.onExtraListElement471()
 }
 
-func (c *current) onExtraListElement463() (interface{}, error) {
+func (c *current) onExtraListElement475() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement463() (interface{}, error) {
+func (p *parser) callonExtraListElement475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement463()
+	return p.cur.onExtraListElement475()
 }
 
-func (c *current) onExtraListElement467() (interface{}, error) {
+func (c *current) onExtraListElement479() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement467() (interface{}, error) {
+func (p *parser) callonExtraListElement479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement467()
+	return p.cur.onExtraListElement479()
 }
 
-func (c *current) onExtraListElement457(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement469(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement457() (interface{}, error) {
+func (p *parser) callonExtraListElement469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement457(stack["content"])
+	return p.cur.onExtraListElement469(stack["content"])
 }
 
-func (c *current) onExtraListElement394(term, separator, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement400(term, separator, description interface{}) (interface{}, error) {
 	return types.NewLabeledListElement(len(separator.(string))-1, term, description)
 
 }
 
-func (p *parser) callonExtraListElement394() (interface{}, error) {
+func (p *parser) callonExtraListElement400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement394(stack["term"], stack["separator"], stack["description"])
+	return p.cur.onExtraListElement400(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onExtraListElement247(attributes, element interface{}) (interface{}, error) {
+func (c *current) onExtraListElement253(attributes, element interface{}) (interface{}, error) {
 
 	return append(attributes.([]interface{}), element), nil
 
 }
 
-func (p *parser) callonExtraListElement247() (interface{}, error) {
+func (p *parser) callonExtraListElement253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement247(stack["attributes"], stack["element"])
+	return p.cur.onExtraListElement253(stack["attributes"], stack["element"])
 }
 
-func (c *current) onExtraListElement481() (interface{}, error) {
+func (c *current) onExtraListElement493() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement481() (interface{}, error) {
+func (p *parser) callonExtraListElement493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement481()
+	return p.cur.onExtraListElement493()
 }
 
-func (c *current) onExtraListElement485() (interface{}, error) {
+func (c *current) onExtraListElement497() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement485() (interface{}, error) {
+func (p *parser) callonExtraListElement497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement485()
+	return p.cur.onExtraListElement497()
 }
 
-func (c *current) onExtraListElement475(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement487(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement475() (interface{}, error) {
+func (p *parser) callonExtraListElement487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement475(stack["content"])
+	return p.cur.onExtraListElement487(stack["content"])
 }
 
-func (c *current) onExtraListElement500() (interface{}, error) {
+func (c *current) onExtraListElement512() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement500() (interface{}, error) {
+func (p *parser) callonExtraListElement512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement500()
+	return p.cur.onExtraListElement512()
 }
 
-func (c *current) onExtraListElement503() (interface{}, error) {
+func (c *current) onExtraListElement515() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement503() (interface{}, error) {
+func (p *parser) callonExtraListElement515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement503()
+	return p.cur.onExtraListElement515()
 }
 
-func (c *current) onExtraListElement495() (interface{}, error) {
+func (c *current) onExtraListElement507() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement495() (interface{}, error) {
+func (p *parser) callonExtraListElement507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement495()
+	return p.cur.onExtraListElement507()
 }
 
-func (c *current) onExtraListElement514() (interface{}, error) {
+func (c *current) onExtraListElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement514() (interface{}, error) {
+func (p *parser) callonExtraListElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement514()
+	return p.cur.onExtraListElement526()
 }
 
-func (c *current) onExtraListElement516() (interface{}, error) {
+func (c *current) onExtraListElement528() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement516() (interface{}, error) {
+func (p *parser) callonExtraListElement528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement516()
+	return p.cur.onExtraListElement528()
 }
 
-func (c *current) onExtraListElement525() (interface{}, error) {
+func (c *current) onExtraListElement537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement525() (interface{}, error) {
+func (p *parser) callonExtraListElement537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement525()
+	return p.cur.onExtraListElement537()
 }
 
-func (c *current) onExtraListElement532() (interface{}, error) {
+func (c *current) onExtraListElement544() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement532() (interface{}, error) {
+func (p *parser) callonExtraListElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement532()
+	return p.cur.onExtraListElement544()
 }
 
-func (c *current) onExtraListElement535(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement547(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement535() (bool, error) {
+func (p *parser) callonExtraListElement547() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement535(stack["depth"])
+	return p.cur.onExtraListElement547(stack["depth"])
 }
 
-func (c *current) onExtraListElement529(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement541(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -62122,745 +62290,745 @@ func (c *current) onExtraListElement529(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement529() (interface{}, error) {
+func (p *parser) callonExtraListElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement529(stack["depth"])
+	return p.cur.onExtraListElement541(stack["depth"])
 }
 
-func (c *current) onExtraListElement536() (interface{}, error) {
+func (c *current) onExtraListElement548() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement536() (interface{}, error) {
+func (p *parser) callonExtraListElement548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement536()
+	return p.cur.onExtraListElement548()
 }
 
-func (c *current) onExtraListElement541() (interface{}, error) {
+func (c *current) onExtraListElement553() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement541() (interface{}, error) {
+func (p *parser) callonExtraListElement553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement541()
+	return p.cur.onExtraListElement553()
 }
 
-func (c *current) onExtraListElement545() (interface{}, error) {
+func (c *current) onExtraListElement557() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement545() (interface{}, error) {
+func (p *parser) callonExtraListElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement545()
+	return p.cur.onExtraListElement557()
 }
 
-func (c *current) onExtraListElement549() (interface{}, error) {
+func (c *current) onExtraListElement561() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement549() (interface{}, error) {
+func (p *parser) callonExtraListElement561() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement549()
+	return p.cur.onExtraListElement561()
 }
 
-func (c *current) onExtraListElement554() (interface{}, error) {
+func (c *current) onExtraListElement566() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement554() (interface{}, error) {
+func (p *parser) callonExtraListElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement554()
+	return p.cur.onExtraListElement566()
 }
 
-func (c *current) onExtraListElement559(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement571(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement559() (interface{}, error) {
+func (p *parser) callonExtraListElement571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement559(stack["prefix"])
+	return p.cur.onExtraListElement571(stack["prefix"])
 }
 
-func (c *current) onExtraListElement522(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement534(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement522() (interface{}, error) {
+func (p *parser) callonExtraListElement534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement522(stack["prefix"])
+	return p.cur.onExtraListElement534(stack["prefix"])
 }
 
-func (c *current) onExtraListElement566() (interface{}, error) {
+func (c *current) onExtraListElement578() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement566() (interface{}, error) {
+func (p *parser) callonExtraListElement578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement566()
+	return p.cur.onExtraListElement578()
 }
 
-func (c *current) onExtraListElement569() (interface{}, error) {
+func (c *current) onExtraListElement581() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement569() (interface{}, error) {
+func (p *parser) callonExtraListElement581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement569()
+	return p.cur.onExtraListElement581()
 }
 
-func (c *current) onExtraListElement574(style interface{}) (bool, error) {
+func (c *current) onExtraListElement586(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement574() (bool, error) {
+func (p *parser) callonExtraListElement586() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement574(stack["style"])
+	return p.cur.onExtraListElement586(stack["style"])
 }
 
-func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement587(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement575() (interface{}, error) {
+func (p *parser) callonExtraListElement587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement575(stack["style"])
+	return p.cur.onExtraListElement587(stack["style"])
 }
 
-func (c *current) onExtraListElement563(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement563() (interface{}, error) {
+func (p *parser) callonExtraListElement575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement563(stack["style"])
+	return p.cur.onExtraListElement575(stack["style"])
 }
 
-func (c *current) onExtraListElement583() (interface{}, error) {
+func (c *current) onExtraListElement595() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement583() (interface{}, error) {
+func (p *parser) callonExtraListElement595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement583()
+	return p.cur.onExtraListElement595()
 }
 
-func (c *current) onExtraListElement587(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement599(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement587() (interface{}, error) {
+func (p *parser) callonExtraListElement599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement587(stack["ref"])
+	return p.cur.onExtraListElement599(stack["ref"])
 }
 
-func (c *current) onExtraListElement579(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement591(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement579() (interface{}, error) {
+func (p *parser) callonExtraListElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement579(stack["ref"])
+	return p.cur.onExtraListElement591(stack["ref"])
 }
 
-func (c *current) onExtraListElement599() (interface{}, error) {
+func (c *current) onExtraListElement617() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement599() (interface{}, error) {
+func (p *parser) callonExtraListElement617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement599()
+	return p.cur.onExtraListElement617()
 }
 
-func (c *current) onExtraListElement602(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement620(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement602() (bool, error) {
+func (p *parser) callonExtraListElement620() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement602(stack["separator"])
+	return p.cur.onExtraListElement620(stack["separator"])
 }
 
-func (c *current) onExtraListElement596(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement614(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement596() (interface{}, error) {
+func (p *parser) callonExtraListElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement596(stack["separator"])
+	return p.cur.onExtraListElement614(stack["separator"])
 }
 
-func (c *current) onExtraListElement605() (interface{}, error) {
+func (c *current) onExtraListElement623() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement605() (interface{}, error) {
+func (p *parser) callonExtraListElement623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement605()
+	return p.cur.onExtraListElement623()
 }
 
-func (c *current) onExtraListElement592() (interface{}, error) {
+func (c *current) onExtraListElement604() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement592() (interface{}, error) {
+func (p *parser) callonExtraListElement604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement592()
+	return p.cur.onExtraListElement604()
 }
 
-func (c *current) onExtraListElement616() (interface{}, error) {
+func (c *current) onExtraListElement634() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement616() (interface{}, error) {
+func (p *parser) callonExtraListElement634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement616()
+	return p.cur.onExtraListElement634()
 }
 
-func (c *current) onExtraListElement619(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement637(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement619() (bool, error) {
+func (p *parser) callonExtraListElement637() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement619(stack["separator"])
+	return p.cur.onExtraListElement637(stack["separator"])
 }
 
-func (c *current) onExtraListElement613(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement631(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement613() (interface{}, error) {
+func (p *parser) callonExtraListElement631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement613(stack["separator"])
+	return p.cur.onExtraListElement631(stack["separator"])
 }
 
-func (c *current) onExtraListElement630() (interface{}, error) {
+func (c *current) onExtraListElement648() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement630() (interface{}, error) {
+func (p *parser) callonExtraListElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement630()
+	return p.cur.onExtraListElement648()
 }
 
-func (c *current) onExtraListElement636() (interface{}, error) {
+func (c *current) onExtraListElement654() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement636() (interface{}, error) {
+func (p *parser) callonExtraListElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement636()
+	return p.cur.onExtraListElement654()
 }
 
-func (c *current) onExtraListElement639() (interface{}, error) {
+func (c *current) onExtraListElement657() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement639() (interface{}, error) {
+func (p *parser) callonExtraListElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement639()
+	return p.cur.onExtraListElement657()
 }
 
-func (c *current) onExtraListElement627(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement645(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement627() (interface{}, error) {
+func (p *parser) callonExtraListElement645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement627(stack["delimiter"])
+	return p.cur.onExtraListElement645(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement649() (interface{}, error) {
+func (c *current) onExtraListElement667() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement649() (interface{}, error) {
+func (p *parser) callonExtraListElement667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement649()
+	return p.cur.onExtraListElement667()
 }
 
-func (c *current) onExtraListElement655() (interface{}, error) {
+func (c *current) onExtraListElement673() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement655() (interface{}, error) {
+func (p *parser) callonExtraListElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement655()
+	return p.cur.onExtraListElement673()
 }
 
-func (c *current) onExtraListElement658() (interface{}, error) {
+func (c *current) onExtraListElement676() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement658() (interface{}, error) {
+func (p *parser) callonExtraListElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement658()
+	return p.cur.onExtraListElement676()
 }
 
-func (c *current) onExtraListElement646(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement664(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement646() (interface{}, error) {
+func (p *parser) callonExtraListElement664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement646(stack["delimiter"])
+	return p.cur.onExtraListElement664(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement669() (interface{}, error) {
+func (c *current) onExtraListElement687() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement669() (interface{}, error) {
+func (p *parser) callonExtraListElement687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement669()
+	return p.cur.onExtraListElement687()
 }
 
-func (c *current) onExtraListElement673() (interface{}, error) {
+func (c *current) onExtraListElement691() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement673() (interface{}, error) {
+func (p *parser) callonExtraListElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement673()
+	return p.cur.onExtraListElement691()
 }
 
-func (c *current) onExtraListElement676() (interface{}, error) {
+func (c *current) onExtraListElement694() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement676() (interface{}, error) {
+func (p *parser) callonExtraListElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement676()
+	return p.cur.onExtraListElement694()
 }
 
-func (c *current) onExtraListElement665(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement683(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement665() (interface{}, error) {
+func (p *parser) callonExtraListElement683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement665(stack["language"])
+	return p.cur.onExtraListElement683(stack["language"])
 }
 
-func (c *current) onExtraListElement686() (interface{}, error) {
+func (c *current) onExtraListElement704() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686()
+	return p.cur.onExtraListElement704()
 }
 
-func (c *current) onExtraListElement692() (interface{}, error) {
+func (c *current) onExtraListElement710() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement692() (interface{}, error) {
+func (p *parser) callonExtraListElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement692()
+	return p.cur.onExtraListElement710()
 }
 
-func (c *current) onExtraListElement695() (interface{}, error) {
+func (c *current) onExtraListElement713() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement695() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement695()
+	return p.cur.onExtraListElement713()
 }
 
-func (c *current) onExtraListElement683(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement701(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683(stack["delimiter"])
+	return p.cur.onExtraListElement701(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement705() (interface{}, error) {
+func (c *current) onExtraListElement723() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement705() (interface{}, error) {
+func (p *parser) callonExtraListElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement705()
+	return p.cur.onExtraListElement723()
 }
 
-func (c *current) onExtraListElement711() (interface{}, error) {
+func (c *current) onExtraListElement729() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement711() (interface{}, error) {
+func (p *parser) callonExtraListElement729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement711()
+	return p.cur.onExtraListElement729()
 }
 
-func (c *current) onExtraListElement714() (interface{}, error) {
+func (c *current) onExtraListElement732() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement714() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement714()
+	return p.cur.onExtraListElement732()
 }
 
-func (c *current) onExtraListElement702(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement720(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement702() (interface{}, error) {
+func (p *parser) callonExtraListElement720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement702(stack["delimiter"])
+	return p.cur.onExtraListElement720(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement724() (interface{}, error) {
+func (c *current) onExtraListElement742() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement724() (interface{}, error) {
+func (p *parser) callonExtraListElement742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement724()
+	return p.cur.onExtraListElement742()
 }
 
-func (c *current) onExtraListElement730() (interface{}, error) {
+func (c *current) onExtraListElement748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement730() (interface{}, error) {
+func (p *parser) callonExtraListElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement730()
+	return p.cur.onExtraListElement748()
 }
 
-func (c *current) onExtraListElement733() (interface{}, error) {
+func (c *current) onExtraListElement751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement733() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement733()
+	return p.cur.onExtraListElement751()
 }
 
-func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement739(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement721() (interface{}, error) {
+func (p *parser) callonExtraListElement739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement721(stack["delimiter"])
+	return p.cur.onExtraListElement739(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement743() (interface{}, error) {
+func (c *current) onExtraListElement761() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement743() (interface{}, error) {
+func (p *parser) callonExtraListElement761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement743()
+	return p.cur.onExtraListElement761()
 }
 
-func (c *current) onExtraListElement749() (interface{}, error) {
+func (c *current) onExtraListElement767() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement749() (interface{}, error) {
+func (p *parser) callonExtraListElement767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement749()
+	return p.cur.onExtraListElement767()
 }
 
-func (c *current) onExtraListElement752() (interface{}, error) {
+func (c *current) onExtraListElement770() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement752() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement752()
+	return p.cur.onExtraListElement770()
 }
 
-func (c *current) onExtraListElement740(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement758(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement740() (interface{}, error) {
+func (p *parser) callonExtraListElement758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement740(stack["delimiter"])
+	return p.cur.onExtraListElement758(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement762() (interface{}, error) {
+func (c *current) onExtraListElement780() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement762() (interface{}, error) {
+func (p *parser) callonExtraListElement780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement762()
+	return p.cur.onExtraListElement780()
 }
 
-func (c *current) onExtraListElement768() (interface{}, error) {
+func (c *current) onExtraListElement786() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement768() (interface{}, error) {
+func (p *parser) callonExtraListElement786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement768()
+	return p.cur.onExtraListElement786()
 }
 
-func (c *current) onExtraListElement771() (interface{}, error) {
+func (c *current) onExtraListElement789() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement771() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement771()
+	return p.cur.onExtraListElement789()
 }
 
-func (c *current) onExtraListElement759(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement777(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement759() (interface{}, error) {
+func (p *parser) callonExtraListElement777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement759(stack["delimiter"])
+	return p.cur.onExtraListElement777(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement781() (interface{}, error) {
+func (c *current) onExtraListElement799() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement781() (interface{}, error) {
+func (p *parser) callonExtraListElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement781()
+	return p.cur.onExtraListElement799()
 }
 
-func (c *current) onExtraListElement787() (interface{}, error) {
+func (c *current) onExtraListElement805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement787() (interface{}, error) {
+func (p *parser) callonExtraListElement805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement787()
+	return p.cur.onExtraListElement805()
 }
 
-func (c *current) onExtraListElement790() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement790() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement790()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement778(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement796(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement778() (interface{}, error) {
+func (p *parser) callonExtraListElement796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement778(stack["delimiter"])
+	return p.cur.onExtraListElement796(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement621(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement639(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement621() (interface{}, error) {
+func (p *parser) callonExtraListElement639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement621(stack["delimiter"])
+	return p.cur.onExtraListElement639(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement798() (interface{}, error) {
+func (c *current) onExtraListElement816() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement798() (interface{}, error) {
+func (p *parser) callonExtraListElement816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement798()
+	return p.cur.onExtraListElement816()
 }
 
-func (c *current) onExtraListElement802() (interface{}, error) {
+func (c *current) onExtraListElement820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement802() (interface{}, error) {
+func (p *parser) callonExtraListElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement802()
+	return p.cur.onExtraListElement820()
 }
 
-func (c *current) onExtraListElement492(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement504(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement492() (interface{}, error) {
+func (p *parser) callonExtraListElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement492(stack["content"])
+	return p.cur.onExtraListElement504(stack["content"])
 }
 
 func (c *current) onExtraListElement1(element interface{}) (interface{}, error) {
@@ -63351,51 +63519,51 @@ func (p *parser) callonListContinuationElement117() (interface{}, error) {
 	return p.cur.onListContinuationElement117(stack["ref"], stack["description"])
 }
 
-func (c *current) onListContinuationElement157() (interface{}, error) {
+func (c *current) onListContinuationElement163() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement157() (interface{}, error) {
+func (p *parser) callonListContinuationElement163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement157()
+	return p.cur.onListContinuationElement163()
 }
 
-func (c *current) onListContinuationElement160(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement166(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement160() (bool, error) {
+func (p *parser) callonListContinuationElement166() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement160(stack["separator"])
+	return p.cur.onListContinuationElement166(stack["separator"])
 }
 
-func (c *current) onListContinuationElement154(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement160(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement154() (interface{}, error) {
+func (p *parser) callonListContinuationElement160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement154(stack["separator"])
+	return p.cur.onListContinuationElement160(stack["separator"])
 }
 
-func (c *current) onListContinuationElement163() (interface{}, error) {
+func (c *current) onListContinuationElement169() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement163() (interface{}, error) {
+func (p *parser) callonListContinuationElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement163()
+	return p.cur.onListContinuationElement169()
 }
 
 func (c *current) onListContinuationElement150() (interface{}, error) {
@@ -63409,153 +63577,153 @@ func (p *parser) callonListContinuationElement150() (interface{}, error) {
 	return p.cur.onListContinuationElement150()
 }
 
-func (c *current) onListContinuationElement175() (interface{}, error) {
+func (c *current) onListContinuationElement181() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement175() (interface{}, error) {
+func (p *parser) callonListContinuationElement181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement175()
+	return p.cur.onListContinuationElement181()
 }
 
-func (c *current) onListContinuationElement178(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement184(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement178() (bool, error) {
+func (p *parser) callonListContinuationElement184() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement178(stack["separator"])
+	return p.cur.onListContinuationElement184(stack["separator"])
 }
 
-func (c *current) onListContinuationElement172(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement178(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement172() (interface{}, error) {
+func (p *parser) callonListContinuationElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement172(stack["separator"])
+	return p.cur.onListContinuationElement178(stack["separator"])
 }
 
-func (c *current) onListContinuationElement184() (interface{}, error) {
+func (c *current) onListContinuationElement190() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement184() (interface{}, error) {
+func (p *parser) callonListContinuationElement190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement184()
+	return p.cur.onListContinuationElement190()
 }
 
-func (c *current) onListContinuationElement187() (interface{}, error) {
+func (c *current) onListContinuationElement193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement187() (interface{}, error) {
+func (p *parser) callonListContinuationElement193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement187()
+	return p.cur.onListContinuationElement193()
 }
 
-func (c *current) onListContinuationElement200() (interface{}, error) {
+func (c *current) onListContinuationElement206() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement200() (interface{}, error) {
+func (p *parser) callonListContinuationElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement200()
+	return p.cur.onListContinuationElement206()
 }
 
-func (c *current) onListContinuationElement203() (interface{}, error) {
+func (c *current) onListContinuationElement209() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement203() (interface{}, error) {
+func (p *parser) callonListContinuationElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement203()
+	return p.cur.onListContinuationElement209()
 }
 
-func (c *current) onListContinuationElement195() (interface{}, error) {
+func (c *current) onListContinuationElement201() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement195() (interface{}, error) {
+func (p *parser) callonListContinuationElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement195()
+	return p.cur.onListContinuationElement201()
 }
 
-func (c *current) onListContinuationElement181() (interface{}, error) {
+func (c *current) onListContinuationElement187() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListContinuationElement181() (interface{}, error) {
+func (p *parser) callonListContinuationElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement181()
+	return p.cur.onListContinuationElement187()
 }
 
-func (c *current) onListContinuationElement212() (interface{}, error) {
+func (c *current) onListContinuationElement218() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement212() (interface{}, error) {
+func (p *parser) callonListContinuationElement218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement212()
+	return p.cur.onListContinuationElement218()
 }
 
-func (c *current) onListContinuationElement216() (interface{}, error) {
+func (c *current) onListContinuationElement222() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement216() (interface{}, error) {
+func (p *parser) callonListContinuationElement222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement216()
+	return p.cur.onListContinuationElement222()
 }
 
-func (c *current) onListContinuationElement220() (interface{}, error) {
+func (c *current) onListContinuationElement226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement220() (interface{}, error) {
+func (p *parser) callonListContinuationElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement220()
+	return p.cur.onListContinuationElement226()
 }
 
-func (c *current) onListContinuationElement210(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement216(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListContinuationElement210() (interface{}, error) {
+func (p *parser) callonListContinuationElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement210(stack["content"])
+	return p.cur.onListContinuationElement216(stack["content"])
 }
 
 func (c *current) onListContinuationElement147(term, separator, description interface{}) (interface{}, error) {
@@ -63569,696 +63737,696 @@ func (p *parser) callonListContinuationElement147() (interface{}, error) {
 	return p.cur.onListContinuationElement147(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onListContinuationElement237() (interface{}, error) {
+func (c *current) onListContinuationElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement237() (interface{}, error) {
+func (p *parser) callonListContinuationElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement237()
+	return p.cur.onListContinuationElement243()
 }
 
-func (c *current) onListContinuationElement240() (interface{}, error) {
+func (c *current) onListContinuationElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement240() (interface{}, error) {
+func (p *parser) callonListContinuationElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement240()
+	return p.cur.onListContinuationElement246()
 }
 
-func (c *current) onListContinuationElement232() (interface{}, error) {
+func (c *current) onListContinuationElement238() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement232() (interface{}, error) {
+func (p *parser) callonListContinuationElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement232()
+	return p.cur.onListContinuationElement238()
 }
 
-func (c *current) onListContinuationElement252() (interface{}, error) {
+func (c *current) onListContinuationElement258() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement252() (interface{}, error) {
+func (p *parser) callonListContinuationElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement252()
+	return p.cur.onListContinuationElement258()
 }
 
-func (c *current) onListContinuationElement259() (interface{}, error) {
+func (c *current) onListContinuationElement265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement259() (interface{}, error) {
+func (p *parser) callonListContinuationElement265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement259()
+	return p.cur.onListContinuationElement265()
 }
 
-func (c *current) onListContinuationElement262() (interface{}, error) {
+func (c *current) onListContinuationElement268() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement262() (interface{}, error) {
+func (p *parser) callonListContinuationElement268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement262()
+	return p.cur.onListContinuationElement268()
 }
 
-func (c *current) onListContinuationElement248(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement254(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement248() (interface{}, error) {
+func (p *parser) callonListContinuationElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement248(stack["name"])
+	return p.cur.onListContinuationElement254(stack["name"])
 }
 
-func (c *current) onListContinuationElement273() (interface{}, error) {
+func (c *current) onListContinuationElement279() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement273() (interface{}, error) {
+func (p *parser) callonListContinuationElement279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement273()
+	return p.cur.onListContinuationElement279()
 }
 
-func (c *current) onListContinuationElement280() (interface{}, error) {
+func (c *current) onListContinuationElement286() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement280() (interface{}, error) {
+func (p *parser) callonListContinuationElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement280()
+	return p.cur.onListContinuationElement286()
 }
 
-func (c *current) onListContinuationElement283() (interface{}, error) {
+func (c *current) onListContinuationElement289() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement283() (interface{}, error) {
+func (p *parser) callonListContinuationElement289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement283()
+	return p.cur.onListContinuationElement289()
 }
 
-func (c *current) onListContinuationElement269(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement275(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement269() (interface{}, error) {
+func (p *parser) callonListContinuationElement275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement269(stack["name"])
+	return p.cur.onListContinuationElement275(stack["name"])
 }
 
-func (c *current) onListContinuationElement295() (interface{}, error) {
+func (c *current) onListContinuationElement301() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement295() (interface{}, error) {
+func (p *parser) callonListContinuationElement301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement295()
+	return p.cur.onListContinuationElement301()
 }
 
-func (c *current) onListContinuationElement301() (interface{}, error) {
+func (c *current) onListContinuationElement307() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement301() (interface{}, error) {
+func (p *parser) callonListContinuationElement307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement301()
+	return p.cur.onListContinuationElement307()
 }
 
-func (c *current) onListContinuationElement304() (interface{}, error) {
+func (c *current) onListContinuationElement310() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement304() (interface{}, error) {
+func (p *parser) callonListContinuationElement310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement304()
+	return p.cur.onListContinuationElement310()
 }
 
-func (c *current) onListContinuationElement292(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement298(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement292() (interface{}, error) {
+func (p *parser) callonListContinuationElement298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement292(stack["delimiter"])
+	return p.cur.onListContinuationElement298(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement320() (interface{}, error) {
+func (c *current) onListContinuationElement326() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement320() (interface{}, error) {
+func (p *parser) callonListContinuationElement326() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement320()
+	return p.cur.onListContinuationElement326()
 }
 
-func (c *current) onListContinuationElement326() (interface{}, error) {
+func (c *current) onListContinuationElement332() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement326() (interface{}, error) {
+func (p *parser) callonListContinuationElement332() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement326()
+	return p.cur.onListContinuationElement332()
 }
 
-func (c *current) onListContinuationElement329() (interface{}, error) {
+func (c *current) onListContinuationElement335() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement329() (interface{}, error) {
+func (p *parser) callonListContinuationElement335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement329()
+	return p.cur.onListContinuationElement335()
 }
 
-func (c *current) onListContinuationElement317(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement323(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement317() (interface{}, error) {
+func (p *parser) callonListContinuationElement323() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement317(stack["delimiter"])
+	return p.cur.onListContinuationElement323(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement344() (interface{}, error) {
+func (c *current) onListContinuationElement350() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement344() (interface{}, error) {
+func (p *parser) callonListContinuationElement350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement344()
+	return p.cur.onListContinuationElement350()
 }
 
-func (c *current) onListContinuationElement348() (interface{}, error) {
+func (c *current) onListContinuationElement354() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement348() (interface{}, error) {
+func (p *parser) callonListContinuationElement354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement348()
+	return p.cur.onListContinuationElement354()
 }
 
-func (c *current) onListContinuationElement339(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement345(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement339() (interface{}, error) {
+func (p *parser) callonListContinuationElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement339(stack["content"])
+	return p.cur.onListContinuationElement345(stack["content"])
 }
 
-func (c *current) onListContinuationElement313(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement319(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement313() (interface{}, error) {
+func (p *parser) callonListContinuationElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement313(stack["line"])
+	return p.cur.onListContinuationElement319(stack["line"])
 }
 
-func (c *current) onListContinuationElement360() (interface{}, error) {
+func (c *current) onListContinuationElement366() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement360() (interface{}, error) {
+func (p *parser) callonListContinuationElement366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement360()
+	return p.cur.onListContinuationElement366()
 }
 
-func (c *current) onListContinuationElement366() (interface{}, error) {
+func (c *current) onListContinuationElement372() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement366() (interface{}, error) {
+func (p *parser) callonListContinuationElement372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement366()
+	return p.cur.onListContinuationElement372()
 }
 
-func (c *current) onListContinuationElement369() (interface{}, error) {
+func (c *current) onListContinuationElement375() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement369() (interface{}, error) {
+func (p *parser) callonListContinuationElement375() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement369()
+	return p.cur.onListContinuationElement375()
 }
 
-func (c *current) onListContinuationElement357(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement363(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement357() (interface{}, error) {
+func (p *parser) callonListContinuationElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement357(stack["delimiter"])
+	return p.cur.onListContinuationElement363(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement290(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement296(delimiter, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement290() (interface{}, error) {
+func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement290(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement296(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement384() (interface{}, error) {
+func (c *current) onListContinuationElement390() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement384() (interface{}, error) {
+func (p *parser) callonListContinuationElement390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384()
+	return p.cur.onListContinuationElement390()
 }
 
-func (c *current) onListContinuationElement390() (interface{}, error) {
+func (c *current) onListContinuationElement396() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390()
+	return p.cur.onListContinuationElement396()
 }
 
-func (c *current) onListContinuationElement393() (interface{}, error) {
+func (c *current) onListContinuationElement399() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement393() (interface{}, error) {
+func (p *parser) callonListContinuationElement399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement393()
+	return p.cur.onListContinuationElement399()
 }
 
-func (c *current) onListContinuationElement381(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement387(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement381() (interface{}, error) {
+func (p *parser) callonListContinuationElement387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement381(stack["delimiter"])
+	return p.cur.onListContinuationElement387(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement400(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement406(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement400() (bool, error) {
+func (p *parser) callonListContinuationElement406() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement400(stack["start"])
+	return p.cur.onListContinuationElement406(stack["start"])
 }
 
-func (c *current) onListContinuationElement412() (interface{}, error) {
+func (c *current) onListContinuationElement418() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement412() (interface{}, error) {
+func (p *parser) callonListContinuationElement418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement412()
+	return p.cur.onListContinuationElement418()
 }
 
-func (c *current) onListContinuationElement418() (interface{}, error) {
+func (c *current) onListContinuationElement424() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418()
+	return p.cur.onListContinuationElement424()
 }
 
-func (c *current) onListContinuationElement421() (interface{}, error) {
+func (c *current) onListContinuationElement427() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement421() (interface{}, error) {
+func (p *parser) callonListContinuationElement427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement421()
+	return p.cur.onListContinuationElement427()
 }
 
-func (c *current) onListContinuationElement409(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement415(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement409() (interface{}, error) {
+func (p *parser) callonListContinuationElement415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["delimiter"])
+	return p.cur.onListContinuationElement415(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement428(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement434(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement428() (bool, error) {
+func (p *parser) callonListContinuationElement434() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement428(stack["end"])
+	return p.cur.onListContinuationElement434(stack["end"])
 }
 
-func (c *current) onListContinuationElement437() (interface{}, error) {
+func (c *current) onListContinuationElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement437() (interface{}, error) {
+func (p *parser) callonListContinuationElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement437()
+	return p.cur.onListContinuationElement443()
 }
 
-func (c *current) onListContinuationElement441() (interface{}, error) {
+func (c *current) onListContinuationElement447() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement441() (interface{}, error) {
+func (p *parser) callonListContinuationElement447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement441()
+	return p.cur.onListContinuationElement447()
 }
 
-func (c *current) onListContinuationElement432(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement438(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement432() (interface{}, error) {
+func (p *parser) callonListContinuationElement438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement432(stack["content"])
+	return p.cur.onListContinuationElement438(stack["content"])
 }
 
-func (c *current) onListContinuationElement403(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement409(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement403() (interface{}, error) {
+func (p *parser) callonListContinuationElement409() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement403(stack["line"])
+	return p.cur.onListContinuationElement409(stack["line"])
 }
 
-func (c *current) onListContinuationElement456() (interface{}, error) {
+func (c *current) onListContinuationElement462() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement456() (interface{}, error) {
+func (p *parser) callonListContinuationElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement456()
+	return p.cur.onListContinuationElement462()
 }
 
-func (c *current) onListContinuationElement462() (interface{}, error) {
+func (c *current) onListContinuationElement468() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement468() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462()
+	return p.cur.onListContinuationElement468()
 }
 
-func (c *current) onListContinuationElement465() (interface{}, error) {
+func (c *current) onListContinuationElement471() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement465() (interface{}, error) {
+func (p *parser) callonListContinuationElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement465()
+	return p.cur.onListContinuationElement471()
 }
 
-func (c *current) onListContinuationElement453(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement459(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement453() (interface{}, error) {
+func (p *parser) callonListContinuationElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement453(stack["delimiter"])
+	return p.cur.onListContinuationElement459(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement472(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement478(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement472() (bool, error) {
+func (p *parser) callonListContinuationElement478() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement472(stack["end"])
+	return p.cur.onListContinuationElement478(stack["end"])
 }
 
-func (c *current) onListContinuationElement378(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement384(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement378() (interface{}, error) {
+func (p *parser) callonListContinuationElement384() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement378(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement384(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement482() (interface{}, error) {
+func (c *current) onListContinuationElement488() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement482() (interface{}, error) {
+func (p *parser) callonListContinuationElement488() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement482()
+	return p.cur.onListContinuationElement488()
 }
 
-func (c *current) onListContinuationElement486() (interface{}, error) {
+func (c *current) onListContinuationElement492() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement486() (interface{}, error) {
+func (p *parser) callonListContinuationElement492() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement486()
+	return p.cur.onListContinuationElement492()
 }
 
-func (c *current) onListContinuationElement489() (interface{}, error) {
+func (c *current) onListContinuationElement495() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement489() (interface{}, error) {
+func (p *parser) callonListContinuationElement495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement489()
+	return p.cur.onListContinuationElement495()
 }
 
-func (c *current) onListContinuationElement478(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement484(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement478() (interface{}, error) {
+func (p *parser) callonListContinuationElement484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement478(stack["language"])
+	return p.cur.onListContinuationElement484(stack["language"])
 }
 
-func (c *current) onListContinuationElement504() (interface{}, error) {
+func (c *current) onListContinuationElement510() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement504() (interface{}, error) {
+func (p *parser) callonListContinuationElement510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement504()
+	return p.cur.onListContinuationElement510()
 }
 
-func (c *current) onListContinuationElement507() (interface{}, error) {
+func (c *current) onListContinuationElement513() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement507() (interface{}, error) {
+func (p *parser) callonListContinuationElement513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement507()
+	return p.cur.onListContinuationElement513()
 }
 
-func (c *current) onListContinuationElement520() (interface{}, error) {
+func (c *current) onListContinuationElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement520() (interface{}, error) {
+func (p *parser) callonListContinuationElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement520()
+	return p.cur.onListContinuationElement526()
 }
 
-func (c *current) onListContinuationElement524() (interface{}, error) {
+func (c *current) onListContinuationElement530() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement524() (interface{}, error) {
+func (p *parser) callonListContinuationElement530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement524()
+	return p.cur.onListContinuationElement530()
 }
 
-func (c *current) onListContinuationElement515(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement521(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement515() (interface{}, error) {
+func (p *parser) callonListContinuationElement521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement515(stack["content"])
+	return p.cur.onListContinuationElement521(stack["content"])
 }
 
-func (c *current) onListContinuationElement498(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement504(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement498() (interface{}, error) {
+func (p *parser) callonListContinuationElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement498(stack["line"])
+	return p.cur.onListContinuationElement504(stack["line"])
 }
 
-func (c *current) onListContinuationElement535() (interface{}, error) {
+func (c *current) onListContinuationElement541() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement535() (interface{}, error) {
+func (p *parser) callonListContinuationElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement535()
+	return p.cur.onListContinuationElement541()
 }
 
-func (c *current) onListContinuationElement538() (interface{}, error) {
+func (c *current) onListContinuationElement544() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement538() (interface{}, error) {
+func (p *parser) callonListContinuationElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement538()
+	return p.cur.onListContinuationElement544()
 }
 
-func (c *current) onListContinuationElement475(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement481(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -64266,2537 +64434,2537 @@ func (c *current) onListContinuationElement475(delimiter, content interface{}) (
 
 }
 
-func (p *parser) callonListContinuationElement475() (interface{}, error) {
+func (p *parser) callonListContinuationElement481() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement475(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement481(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement551() (interface{}, error) {
+func (c *current) onListContinuationElement557() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement551() (interface{}, error) {
+func (p *parser) callonListContinuationElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement551()
+	return p.cur.onListContinuationElement557()
 }
 
-func (c *current) onListContinuationElement557() (interface{}, error) {
+func (c *current) onListContinuationElement563() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557()
+	return p.cur.onListContinuationElement563()
 }
 
-func (c *current) onListContinuationElement560() (interface{}, error) {
+func (c *current) onListContinuationElement566() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement560() (interface{}, error) {
+func (p *parser) callonListContinuationElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement560()
+	return p.cur.onListContinuationElement566()
 }
 
-func (c *current) onListContinuationElement548(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement554(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement548() (interface{}, error) {
+func (p *parser) callonListContinuationElement554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement548(stack["delimiter"])
+	return p.cur.onListContinuationElement554(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement567(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement573(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement567() (bool, error) {
+func (p *parser) callonListContinuationElement573() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement567(stack["start"])
+	return p.cur.onListContinuationElement573(stack["start"])
 }
 
-func (c *current) onListContinuationElement579() (interface{}, error) {
+func (c *current) onListContinuationElement585() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement579() (interface{}, error) {
+func (p *parser) callonListContinuationElement585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement579()
+	return p.cur.onListContinuationElement585()
 }
 
-func (c *current) onListContinuationElement585() (interface{}, error) {
+func (c *current) onListContinuationElement591() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585()
+	return p.cur.onListContinuationElement591()
 }
 
-func (c *current) onListContinuationElement588() (interface{}, error) {
+func (c *current) onListContinuationElement594() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement588() (interface{}, error) {
+func (p *parser) callonListContinuationElement594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement588()
+	return p.cur.onListContinuationElement594()
 }
 
-func (c *current) onListContinuationElement576(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement582(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement576() (interface{}, error) {
+func (p *parser) callonListContinuationElement582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["delimiter"])
+	return p.cur.onListContinuationElement582(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement595(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement601(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement595() (bool, error) {
+func (p *parser) callonListContinuationElement601() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement595(stack["end"])
+	return p.cur.onListContinuationElement601(stack["end"])
 }
 
-func (c *current) onListContinuationElement604() (interface{}, error) {
+func (c *current) onListContinuationElement610() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement604() (interface{}, error) {
+func (p *parser) callonListContinuationElement610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement604()
+	return p.cur.onListContinuationElement610()
 }
 
-func (c *current) onListContinuationElement608() (interface{}, error) {
+func (c *current) onListContinuationElement614() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement608() (interface{}, error) {
+func (p *parser) callonListContinuationElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement608()
+	return p.cur.onListContinuationElement614()
 }
 
-func (c *current) onListContinuationElement599(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement605(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement599() (interface{}, error) {
+func (p *parser) callonListContinuationElement605() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement599(stack["content"])
+	return p.cur.onListContinuationElement605(stack["content"])
 }
 
-func (c *current) onListContinuationElement570(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement576(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement570() (interface{}, error) {
+func (p *parser) callonListContinuationElement576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement570(stack["line"])
+	return p.cur.onListContinuationElement576(stack["line"])
 }
 
-func (c *current) onListContinuationElement623() (interface{}, error) {
+func (c *current) onListContinuationElement629() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement623() (interface{}, error) {
+func (p *parser) callonListContinuationElement629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement623()
+	return p.cur.onListContinuationElement629()
 }
 
-func (c *current) onListContinuationElement629() (interface{}, error) {
+func (c *current) onListContinuationElement635() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629()
+	return p.cur.onListContinuationElement635()
 }
 
-func (c *current) onListContinuationElement632() (interface{}, error) {
+func (c *current) onListContinuationElement638() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement632() (interface{}, error) {
+func (p *parser) callonListContinuationElement638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement632()
+	return p.cur.onListContinuationElement638()
 }
 
-func (c *current) onListContinuationElement620(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement626(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement620() (interface{}, error) {
+func (p *parser) callonListContinuationElement626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement620(stack["delimiter"])
+	return p.cur.onListContinuationElement626(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement639(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement645(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement639() (bool, error) {
+func (p *parser) callonListContinuationElement645() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement639(stack["end"])
+	return p.cur.onListContinuationElement645(stack["end"])
 }
 
-func (c *current) onListContinuationElement545(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement551(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement545() (interface{}, error) {
+func (p *parser) callonListContinuationElement551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement545(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement551(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement648() (interface{}, error) {
+func (c *current) onListContinuationElement654() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement648() (interface{}, error) {
+func (p *parser) callonListContinuationElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648()
+	return p.cur.onListContinuationElement654()
 }
 
-func (c *current) onListContinuationElement654() (interface{}, error) {
+func (c *current) onListContinuationElement660() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654()
+	return p.cur.onListContinuationElement660()
 }
 
-func (c *current) onListContinuationElement657() (interface{}, error) {
+func (c *current) onListContinuationElement663() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement657() (interface{}, error) {
+func (p *parser) callonListContinuationElement663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement657()
+	return p.cur.onListContinuationElement663()
 }
 
-func (c *current) onListContinuationElement645(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement651(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement645() (interface{}, error) {
+func (p *parser) callonListContinuationElement651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement645(stack["delimiter"])
+	return p.cur.onListContinuationElement651(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement664(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement670(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement664() (bool, error) {
+func (p *parser) callonListContinuationElement670() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement664(stack["start"])
+	return p.cur.onListContinuationElement670(stack["start"])
 }
 
-func (c *current) onListContinuationElement676() (interface{}, error) {
+func (c *current) onListContinuationElement682() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement676() (interface{}, error) {
+func (p *parser) callonListContinuationElement682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement676()
+	return p.cur.onListContinuationElement682()
 }
 
-func (c *current) onListContinuationElement682() (interface{}, error) {
+func (c *current) onListContinuationElement688() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682()
+	return p.cur.onListContinuationElement688()
 }
 
-func (c *current) onListContinuationElement685() (interface{}, error) {
+func (c *current) onListContinuationElement691() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement685() (interface{}, error) {
+func (p *parser) callonListContinuationElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement685()
+	return p.cur.onListContinuationElement691()
 }
 
-func (c *current) onListContinuationElement673(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement679(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement673() (interface{}, error) {
+func (p *parser) callonListContinuationElement679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["delimiter"])
+	return p.cur.onListContinuationElement679(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement692(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement698(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement692() (bool, error) {
+func (p *parser) callonListContinuationElement698() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement692(stack["end"])
+	return p.cur.onListContinuationElement698(stack["end"])
 }
 
-func (c *current) onListContinuationElement701() (interface{}, error) {
+func (c *current) onListContinuationElement707() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement701() (interface{}, error) {
+func (p *parser) callonListContinuationElement707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement701()
+	return p.cur.onListContinuationElement707()
 }
 
-func (c *current) onListContinuationElement705() (interface{}, error) {
+func (c *current) onListContinuationElement711() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement705() (interface{}, error) {
+func (p *parser) callonListContinuationElement711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement705()
+	return p.cur.onListContinuationElement711()
 }
 
-func (c *current) onListContinuationElement696(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement702(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement696() (interface{}, error) {
+func (p *parser) callonListContinuationElement702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement696(stack["content"])
+	return p.cur.onListContinuationElement702(stack["content"])
 }
 
-func (c *current) onListContinuationElement667(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement673(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement667() (interface{}, error) {
+func (p *parser) callonListContinuationElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement667(stack["line"])
+	return p.cur.onListContinuationElement673(stack["line"])
 }
 
-func (c *current) onListContinuationElement720() (interface{}, error) {
+func (c *current) onListContinuationElement726() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement720() (interface{}, error) {
+func (p *parser) callonListContinuationElement726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement720()
+	return p.cur.onListContinuationElement726()
 }
 
-func (c *current) onListContinuationElement726() (interface{}, error) {
+func (c *current) onListContinuationElement732() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726()
+	return p.cur.onListContinuationElement732()
 }
 
-func (c *current) onListContinuationElement729() (interface{}, error) {
+func (c *current) onListContinuationElement735() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement729() (interface{}, error) {
+func (p *parser) callonListContinuationElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement729()
+	return p.cur.onListContinuationElement735()
 }
 
-func (c *current) onListContinuationElement717(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement723(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement717() (interface{}, error) {
+func (p *parser) callonListContinuationElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement717(stack["delimiter"])
+	return p.cur.onListContinuationElement723(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement736(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement742(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement736() (bool, error) {
+func (p *parser) callonListContinuationElement742() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement736(stack["end"])
+	return p.cur.onListContinuationElement742(stack["end"])
 }
 
-func (c *current) onListContinuationElement642(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement648(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement642() (interface{}, error) {
+func (p *parser) callonListContinuationElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement642(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement648(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement745() (interface{}, error) {
+func (c *current) onListContinuationElement751() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement745() (interface{}, error) {
+func (p *parser) callonListContinuationElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745()
+	return p.cur.onListContinuationElement751()
 }
 
-func (c *current) onListContinuationElement751() (interface{}, error) {
+func (c *current) onListContinuationElement757() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751()
+	return p.cur.onListContinuationElement757()
 }
 
-func (c *current) onListContinuationElement754() (interface{}, error) {
+func (c *current) onListContinuationElement760() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement754() (interface{}, error) {
+func (p *parser) callonListContinuationElement760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement754()
+	return p.cur.onListContinuationElement760()
 }
 
-func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement748(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement742() (interface{}, error) {
+func (p *parser) callonListContinuationElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement742(stack["delimiter"])
+	return p.cur.onListContinuationElement748(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement761(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement767(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement761() (bool, error) {
+func (p *parser) callonListContinuationElement767() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement761(stack["start"])
+	return p.cur.onListContinuationElement767(stack["start"])
 }
 
-func (c *current) onListContinuationElement773() (interface{}, error) {
+func (c *current) onListContinuationElement779() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement773() (interface{}, error) {
+func (p *parser) callonListContinuationElement779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement773()
+	return p.cur.onListContinuationElement779()
 }
 
-func (c *current) onListContinuationElement779() (interface{}, error) {
+func (c *current) onListContinuationElement785() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779()
+	return p.cur.onListContinuationElement785()
 }
 
-func (c *current) onListContinuationElement782() (interface{}, error) {
+func (c *current) onListContinuationElement788() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement782() (interface{}, error) {
+func (p *parser) callonListContinuationElement788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement782()
+	return p.cur.onListContinuationElement788()
 }
 
-func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement776(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement770() (interface{}, error) {
+func (p *parser) callonListContinuationElement776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["delimiter"])
+	return p.cur.onListContinuationElement776(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement789(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement795(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement789() (bool, error) {
+func (p *parser) callonListContinuationElement795() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement789(stack["end"])
+	return p.cur.onListContinuationElement795(stack["end"])
 }
 
-func (c *current) onListContinuationElement798() (interface{}, error) {
+func (c *current) onListContinuationElement804() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement798() (interface{}, error) {
+func (p *parser) callonListContinuationElement804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement798()
+	return p.cur.onListContinuationElement804()
 }
 
-func (c *current) onListContinuationElement802() (interface{}, error) {
+func (c *current) onListContinuationElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement802() (interface{}, error) {
+func (p *parser) callonListContinuationElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement802()
+	return p.cur.onListContinuationElement808()
 }
 
-func (c *current) onListContinuationElement793(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement799(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement793() (interface{}, error) {
+func (p *parser) callonListContinuationElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement793(stack["content"])
+	return p.cur.onListContinuationElement799(stack["content"])
 }
 
-func (c *current) onListContinuationElement764(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement770(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement764() (interface{}, error) {
+func (p *parser) callonListContinuationElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement764(stack["line"])
+	return p.cur.onListContinuationElement770(stack["line"])
 }
 
-func (c *current) onListContinuationElement817() (interface{}, error) {
+func (c *current) onListContinuationElement823() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement817() (interface{}, error) {
+func (p *parser) callonListContinuationElement823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement817()
+	return p.cur.onListContinuationElement823()
 }
 
-func (c *current) onListContinuationElement823() (interface{}, error) {
+func (c *current) onListContinuationElement829() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823()
+	return p.cur.onListContinuationElement829()
 }
 
-func (c *current) onListContinuationElement826() (interface{}, error) {
+func (c *current) onListContinuationElement832() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement826() (interface{}, error) {
+func (p *parser) callonListContinuationElement832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement826()
+	return p.cur.onListContinuationElement832()
 }
 
-func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement820(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement814() (interface{}, error) {
+func (p *parser) callonListContinuationElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement814(stack["delimiter"])
+	return p.cur.onListContinuationElement820(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement833(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement839(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement833() (bool, error) {
+func (p *parser) callonListContinuationElement839() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement833(stack["end"])
+	return p.cur.onListContinuationElement839(stack["end"])
 }
 
-func (c *current) onListContinuationElement739(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement745(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement739() (interface{}, error) {
+func (p *parser) callonListContinuationElement745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement739(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement745(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement847() (interface{}, error) {
+func (c *current) onListContinuationElement853() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement847() (interface{}, error) {
+func (p *parser) callonListContinuationElement853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement847()
+	return p.cur.onListContinuationElement853()
 }
 
-func (c *current) onListContinuationElement850() (interface{}, error) {
+func (c *current) onListContinuationElement856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement850() (interface{}, error) {
+func (p *parser) callonListContinuationElement856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement850()
+	return p.cur.onListContinuationElement856()
 }
 
-func (c *current) onListContinuationElement842() (interface{}, error) {
+func (c *current) onListContinuationElement848() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement842() (interface{}, error) {
+func (p *parser) callonListContinuationElement848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842()
+	return p.cur.onListContinuationElement848()
 }
 
-func (c *current) onListContinuationElement859() (interface{}, error) {
+func (c *current) onListContinuationElement865() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement859() (interface{}, error) {
+func (p *parser) callonListContinuationElement865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement859()
+	return p.cur.onListContinuationElement865()
 }
 
-func (c *current) onListContinuationElement863() (interface{}, error) {
+func (c *current) onListContinuationElement869() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement863() (interface{}, error) {
+func (p *parser) callonListContinuationElement869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement863()
+	return p.cur.onListContinuationElement869()
 }
 
-func (c *current) onListContinuationElement839(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement845(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement839() (interface{}, error) {
+func (p *parser) callonListContinuationElement845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement839(stack["content"])
+	return p.cur.onListContinuationElement845(stack["content"])
 }
 
-func (c *current) onListContinuationElement881() (interface{}, error) {
+func (c *current) onListContinuationElement887() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement881() (interface{}, error) {
+func (p *parser) callonListContinuationElement887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement881()
+	return p.cur.onListContinuationElement887()
 }
 
-func (c *current) onListContinuationElement884() (interface{}, error) {
+func (c *current) onListContinuationElement890() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement884() (interface{}, error) {
+func (p *parser) callonListContinuationElement890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement884()
+	return p.cur.onListContinuationElement890()
 }
 
-func (c *current) onListContinuationElement876() (interface{}, error) {
+func (c *current) onListContinuationElement882() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement876() (interface{}, error) {
+func (p *parser) callonListContinuationElement882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement876()
+	return p.cur.onListContinuationElement882()
 }
 
-func (c *current) onListContinuationElement893() (interface{}, error) {
+func (c *current) onListContinuationElement899() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement893() (interface{}, error) {
+func (p *parser) callonListContinuationElement899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement893()
+	return p.cur.onListContinuationElement899()
 }
 
-func (c *current) onListContinuationElement897() (interface{}, error) {
+func (c *current) onListContinuationElement903() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement897() (interface{}, error) {
+func (p *parser) callonListContinuationElement903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement897()
+	return p.cur.onListContinuationElement903()
 }
 
-func (c *current) onListContinuationElement873(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement879(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement873() (interface{}, error) {
+func (p *parser) callonListContinuationElement879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement873(stack["content"])
+	return p.cur.onListContinuationElement879(stack["content"])
 }
 
-func (c *current) onListContinuationElement907() (interface{}, error) {
+func (c *current) onListContinuationElement913() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement907() (interface{}, error) {
+func (p *parser) callonListContinuationElement913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement907()
+	return p.cur.onListContinuationElement913()
 }
 
-func (c *current) onListContinuationElement910(content interface{}) (bool, error) {
+func (c *current) onListContinuationElement916(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonListContinuationElement910() (bool, error) {
+func (p *parser) callonListContinuationElement916() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910(stack["content"])
+	return p.cur.onListContinuationElement916(stack["content"])
 }
 
-func (c *current) onListContinuationElement912() (interface{}, error) {
+func (c *current) onListContinuationElement918() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement912() (interface{}, error) {
+func (p *parser) callonListContinuationElement918() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement912()
+	return p.cur.onListContinuationElement918()
 }
 
-func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement910(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement904() (interface{}, error) {
+func (p *parser) callonListContinuationElement910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement904(stack["content"])
+	return p.cur.onListContinuationElement910(stack["content"])
 }
 
-func (c *current) onListContinuationElement836(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement842(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonListContinuationElement836() (interface{}, error) {
+func (p *parser) callonListContinuationElement842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement836(stack["firstLine"], stack["otherLines"])
+	return p.cur.onListContinuationElement842(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement925() (interface{}, error) {
+func (c *current) onListContinuationElement931() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925()
+	return p.cur.onListContinuationElement931()
 }
 
-func (c *current) onListContinuationElement928() (interface{}, error) {
+func (c *current) onListContinuationElement934() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928()
+	return p.cur.onListContinuationElement934()
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
+func (c *current) onListContinuationElement937() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement937()
 }
 
-func (c *current) onListContinuationElement922(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement928(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement922() (interface{}, error) {
+func (p *parser) callonListContinuationElement928() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement922(stack["delimiter"])
+	return p.cur.onListContinuationElement928(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement947() (interface{}, error) {
+func (c *current) onListContinuationElement953() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement947() (interface{}, error) {
+func (p *parser) callonListContinuationElement953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement947()
+	return p.cur.onListContinuationElement953()
 }
 
-func (c *current) onListContinuationElement950() (interface{}, error) {
+func (c *current) onListContinuationElement956() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
+func (p *parser) callonListContinuationElement956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement950()
+	return p.cur.onListContinuationElement956()
 }
 
-func (c *current) onListContinuationElement953() (interface{}, error) {
+func (c *current) onListContinuationElement959() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953()
+	return p.cur.onListContinuationElement959()
 }
 
-func (c *current) onListContinuationElement944(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement950(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement944() (interface{}, error) {
+func (p *parser) callonListContinuationElement950() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement944(stack["delimiter"])
+	return p.cur.onListContinuationElement950(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement968() (interface{}, error) {
+func (c *current) onListContinuationElement974() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement968() (interface{}, error) {
+func (p *parser) callonListContinuationElement974() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement968()
+	return p.cur.onListContinuationElement974()
 }
 
-func (c *current) onListContinuationElement972() (interface{}, error) {
+func (c *current) onListContinuationElement978() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement972() (interface{}, error) {
+func (p *parser) callonListContinuationElement978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement972()
+	return p.cur.onListContinuationElement978()
 }
 
-func (c *current) onListContinuationElement963(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement969(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement963() (interface{}, error) {
+func (p *parser) callonListContinuationElement969() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement963(stack["content"])
+	return p.cur.onListContinuationElement969(stack["content"])
 }
 
-func (c *current) onListContinuationElement940(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement946(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement940() (interface{}, error) {
+func (p *parser) callonListContinuationElement946() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement940(stack["line"])
+	return p.cur.onListContinuationElement946(stack["line"])
 }
 
-func (c *current) onListContinuationElement985() (interface{}, error) {
+func (c *current) onListContinuationElement991() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement985() (interface{}, error) {
+func (p *parser) callonListContinuationElement991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement985()
+	return p.cur.onListContinuationElement991()
 }
 
-func (c *current) onListContinuationElement988() (interface{}, error) {
+func (c *current) onListContinuationElement994() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
+func (p *parser) callonListContinuationElement994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement988()
+	return p.cur.onListContinuationElement994()
 }
 
-func (c *current) onListContinuationElement991() (interface{}, error) {
+func (c *current) onListContinuationElement997() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991()
+	return p.cur.onListContinuationElement997()
 }
 
-func (c *current) onListContinuationElement982(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement988(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement982() (interface{}, error) {
+func (p *parser) callonListContinuationElement988() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement982(stack["delimiter"])
+	return p.cur.onListContinuationElement988(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement919(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement925(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement919() (interface{}, error) {
+func (p *parser) callonListContinuationElement925() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement919(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement925(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1006() (interface{}, error) {
+func (c *current) onListContinuationElement1012() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1006() (interface{}, error) {
+func (p *parser) callonListContinuationElement1012() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1006()
+	return p.cur.onListContinuationElement1012()
 }
 
-func (c *current) onListContinuationElement1012() (interface{}, error) {
+func (c *current) onListContinuationElement1018() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1018() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012()
+	return p.cur.onListContinuationElement1018()
 }
 
-func (c *current) onListContinuationElement1015() (interface{}, error) {
+func (c *current) onListContinuationElement1021() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1015() (interface{}, error) {
+func (p *parser) callonListContinuationElement1021() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1015()
+	return p.cur.onListContinuationElement1021()
 }
 
-func (c *current) onListContinuationElement1003(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1009(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1003() (interface{}, error) {
+func (p *parser) callonListContinuationElement1009() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1003(stack["delimiter"])
+	return p.cur.onListContinuationElement1009(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1022(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1028(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1022() (bool, error) {
+func (p *parser) callonListContinuationElement1028() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1022(stack["start"])
+	return p.cur.onListContinuationElement1028(stack["start"])
 }
 
-func (c *current) onListContinuationElement1034() (interface{}, error) {
+func (c *current) onListContinuationElement1040() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1034() (interface{}, error) {
+func (p *parser) callonListContinuationElement1040() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1034()
+	return p.cur.onListContinuationElement1040()
 }
 
-func (c *current) onListContinuationElement1040() (interface{}, error) {
+func (c *current) onListContinuationElement1046() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1046() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040()
+	return p.cur.onListContinuationElement1046()
 }
 
-func (c *current) onListContinuationElement1043() (interface{}, error) {
+func (c *current) onListContinuationElement1049() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1043() (interface{}, error) {
+func (p *parser) callonListContinuationElement1049() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1043()
+	return p.cur.onListContinuationElement1049()
 }
 
-func (c *current) onListContinuationElement1031(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1037(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1031() (interface{}, error) {
+func (p *parser) callonListContinuationElement1037() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["delimiter"])
+	return p.cur.onListContinuationElement1037(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1050(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1056(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1050() (bool, error) {
+func (p *parser) callonListContinuationElement1056() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1050(stack["end"])
+	return p.cur.onListContinuationElement1056(stack["end"])
 }
 
-func (c *current) onListContinuationElement1059() (interface{}, error) {
+func (c *current) onListContinuationElement1065() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1059() (interface{}, error) {
+func (p *parser) callonListContinuationElement1065() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1059()
+	return p.cur.onListContinuationElement1065()
 }
 
-func (c *current) onListContinuationElement1063() (interface{}, error) {
+func (c *current) onListContinuationElement1069() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1063() (interface{}, error) {
+func (p *parser) callonListContinuationElement1069() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1063()
+	return p.cur.onListContinuationElement1069()
 }
 
-func (c *current) onListContinuationElement1054(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1060(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1054() (interface{}, error) {
+func (p *parser) callonListContinuationElement1060() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1054(stack["content"])
+	return p.cur.onListContinuationElement1060(stack["content"])
 }
 
-func (c *current) onListContinuationElement1025(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1031(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1025() (interface{}, error) {
+func (p *parser) callonListContinuationElement1031() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1025(stack["line"])
+	return p.cur.onListContinuationElement1031(stack["line"])
 }
 
-func (c *current) onListContinuationElement1078() (interface{}, error) {
+func (c *current) onListContinuationElement1084() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1078() (interface{}, error) {
+func (p *parser) callonListContinuationElement1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1078()
+	return p.cur.onListContinuationElement1084()
 }
 
-func (c *current) onListContinuationElement1084() (interface{}, error) {
+func (c *current) onListContinuationElement1090() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1090() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084()
+	return p.cur.onListContinuationElement1090()
 }
 
-func (c *current) onListContinuationElement1087() (interface{}, error) {
+func (c *current) onListContinuationElement1093() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1087() (interface{}, error) {
+func (p *parser) callonListContinuationElement1093() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1087()
+	return p.cur.onListContinuationElement1093()
 }
 
-func (c *current) onListContinuationElement1075(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1081(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1075() (interface{}, error) {
+func (p *parser) callonListContinuationElement1081() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1075(stack["delimiter"])
+	return p.cur.onListContinuationElement1081(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1094(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1100(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1094() (bool, error) {
+func (p *parser) callonListContinuationElement1100() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1094(stack["end"])
+	return p.cur.onListContinuationElement1100(stack["end"])
 }
 
-func (c *current) onListContinuationElement1000(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1006(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
+func (p *parser) callonListContinuationElement1006() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1000(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1006(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1103() (interface{}, error) {
+func (c *current) onListContinuationElement1109() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103()
+	return p.cur.onListContinuationElement1109()
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1115()
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
+	return p.cur.onListContinuationElement1118()
 }
 
-func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1100() (interface{}, error) {
+func (p *parser) callonListContinuationElement1106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1100(stack["delimiter"])
+	return p.cur.onListContinuationElement1106(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1119(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1125(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1119() (bool, error) {
+func (p *parser) callonListContinuationElement1125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1119(stack["start"])
+	return p.cur.onListContinuationElement1125(stack["start"])
 }
 
-func (c *current) onListContinuationElement1131() (interface{}, error) {
+func (c *current) onListContinuationElement1137() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1131() (interface{}, error) {
+func (p *parser) callonListContinuationElement1137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1131()
+	return p.cur.onListContinuationElement1137()
 }
 
-func (c *current) onListContinuationElement1137() (interface{}, error) {
+func (c *current) onListContinuationElement1143() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137()
+	return p.cur.onListContinuationElement1143()
 }
 
-func (c *current) onListContinuationElement1140() (interface{}, error) {
+func (c *current) onListContinuationElement1146() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1140() (interface{}, error) {
+func (p *parser) callonListContinuationElement1146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1140()
+	return p.cur.onListContinuationElement1146()
 }
 
-func (c *current) onListContinuationElement1128(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1134(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["delimiter"])
+	return p.cur.onListContinuationElement1134(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1147(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1153(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1147() (bool, error) {
+func (p *parser) callonListContinuationElement1153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1147(stack["end"])
+	return p.cur.onListContinuationElement1153(stack["end"])
 }
 
-func (c *current) onListContinuationElement1156() (interface{}, error) {
+func (c *current) onListContinuationElement1162() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1156() (interface{}, error) {
+func (p *parser) callonListContinuationElement1162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156()
+	return p.cur.onListContinuationElement1162()
 }
 
-func (c *current) onListContinuationElement1160() (interface{}, error) {
+func (c *current) onListContinuationElement1166() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1160() (interface{}, error) {
+func (p *parser) callonListContinuationElement1166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1160()
+	return p.cur.onListContinuationElement1166()
 }
 
-func (c *current) onListContinuationElement1151(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1157(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1151() (interface{}, error) {
+func (p *parser) callonListContinuationElement1157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1151(stack["content"])
+	return p.cur.onListContinuationElement1157(stack["content"])
 }
 
-func (c *current) onListContinuationElement1122(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1128(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1122() (interface{}, error) {
+func (p *parser) callonListContinuationElement1128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1122(stack["line"])
+	return p.cur.onListContinuationElement1128(stack["line"])
 }
 
-func (c *current) onListContinuationElement1175() (interface{}, error) {
+func (c *current) onListContinuationElement1181() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1175() (interface{}, error) {
+func (p *parser) callonListContinuationElement1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1175()
+	return p.cur.onListContinuationElement1181()
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1187() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1187()
 }
 
-func (c *current) onListContinuationElement1184() (interface{}, error) {
+func (c *current) onListContinuationElement1190() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1184() (interface{}, error) {
+func (p *parser) callonListContinuationElement1190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1184()
+	return p.cur.onListContinuationElement1190()
 }
 
-func (c *current) onListContinuationElement1172(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1178(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+func (p *parser) callonListContinuationElement1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1172(stack["delimiter"])
+	return p.cur.onListContinuationElement1178(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1191(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1197(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1191() (bool, error) {
+func (p *parser) callonListContinuationElement1197() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1191(stack["end"])
+	return p.cur.onListContinuationElement1197(stack["end"])
 }
 
-func (c *current) onListContinuationElement1097(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1103(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1097() (interface{}, error) {
+func (p *parser) callonListContinuationElement1103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1097(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1103(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1200() (interface{}, error) {
+func (c *current) onListContinuationElement1206() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200()
+	return p.cur.onListContinuationElement1206()
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1212() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1212()
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1215() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1215()
 }
 
-func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1203(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1197() (interface{}, error) {
+func (p *parser) callonListContinuationElement1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["delimiter"])
+	return p.cur.onListContinuationElement1203(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1216(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1222(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1216() (bool, error) {
+func (p *parser) callonListContinuationElement1222() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1216(stack["start"])
+	return p.cur.onListContinuationElement1222(stack["start"])
 }
 
-func (c *current) onListContinuationElement1228() (interface{}, error) {
+func (c *current) onListContinuationElement1234() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1228() (interface{}, error) {
+func (p *parser) callonListContinuationElement1234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1228()
+	return p.cur.onListContinuationElement1234()
 }
 
-func (c *current) onListContinuationElement1234() (interface{}, error) {
+func (c *current) onListContinuationElement1240() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234()
+	return p.cur.onListContinuationElement1240()
 }
 
-func (c *current) onListContinuationElement1237() (interface{}, error) {
+func (c *current) onListContinuationElement1243() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1237() (interface{}, error) {
+func (p *parser) callonListContinuationElement1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1237()
+	return p.cur.onListContinuationElement1243()
 }
 
-func (c *current) onListContinuationElement1225(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1231(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["delimiter"])
+	return p.cur.onListContinuationElement1231(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1244(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1250(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1244() (bool, error) {
+func (p *parser) callonListContinuationElement1250() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1244(stack["end"])
+	return p.cur.onListContinuationElement1250(stack["end"])
 }
 
-func (c *current) onListContinuationElement1253() (interface{}, error) {
+func (c *current) onListContinuationElement1259() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1253() (interface{}, error) {
+func (p *parser) callonListContinuationElement1259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253()
+	return p.cur.onListContinuationElement1259()
 }
 
-func (c *current) onListContinuationElement1257() (interface{}, error) {
+func (c *current) onListContinuationElement1263() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1257() (interface{}, error) {
+func (p *parser) callonListContinuationElement1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1257()
+	return p.cur.onListContinuationElement1263()
 }
 
-func (c *current) onListContinuationElement1248(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1254(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1248() (interface{}, error) {
+func (p *parser) callonListContinuationElement1254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1248(stack["content"])
+	return p.cur.onListContinuationElement1254(stack["content"])
 }
 
-func (c *current) onListContinuationElement1219(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1225(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1219() (interface{}, error) {
+func (p *parser) callonListContinuationElement1225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1219(stack["line"])
+	return p.cur.onListContinuationElement1225(stack["line"])
 }
 
-func (c *current) onListContinuationElement1272() (interface{}, error) {
+func (c *current) onListContinuationElement1278() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1272() (interface{}, error) {
+func (p *parser) callonListContinuationElement1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1272()
+	return p.cur.onListContinuationElement1278()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
+func (c *current) onListContinuationElement1284() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1284()
 }
 
-func (c *current) onListContinuationElement1281() (interface{}, error) {
+func (c *current) onListContinuationElement1287() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+func (p *parser) callonListContinuationElement1287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1281()
+	return p.cur.onListContinuationElement1287()
 }
 
-func (c *current) onListContinuationElement1269(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1275(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1269() (interface{}, error) {
+func (p *parser) callonListContinuationElement1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1269(stack["delimiter"])
+	return p.cur.onListContinuationElement1275(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1288(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1294(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1288() (bool, error) {
+func (p *parser) callonListContinuationElement1294() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1288(stack["end"])
+	return p.cur.onListContinuationElement1294(stack["end"])
 }
 
-func (c *current) onListContinuationElement1194(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1200(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1194() (interface{}, error) {
+func (p *parser) callonListContinuationElement1200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1194(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1200(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1302() (interface{}, error) {
+func (c *current) onListContinuationElement1308() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1302() (interface{}, error) {
+func (p *parser) callonListContinuationElement1308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1302()
+	return p.cur.onListContinuationElement1308()
 }
 
-func (c *current) onListContinuationElement1305() (interface{}, error) {
+func (c *current) onListContinuationElement1311() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1305() (interface{}, error) {
+func (p *parser) callonListContinuationElement1311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1305()
+	return p.cur.onListContinuationElement1311()
 }
 
-func (c *current) onListContinuationElement1313() (interface{}, error) {
+func (c *current) onListContinuationElement1319() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1313() (interface{}, error) {
+func (p *parser) callonListContinuationElement1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1313()
+	return p.cur.onListContinuationElement1319()
 }
 
-func (c *current) onListContinuationElement1291() (interface{}, error) {
+func (c *current) onListContinuationElement1297() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1291() (interface{}, error) {
+func (p *parser) callonListContinuationElement1297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1291()
+	return p.cur.onListContinuationElement1297()
 }
 
-func (c *current) onListContinuationElement1325() (interface{}, error) {
+func (c *current) onListContinuationElement1331() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1325() (interface{}, error) {
+func (p *parser) callonListContinuationElement1331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1325()
+	return p.cur.onListContinuationElement1331()
 }
 
-func (c *current) onListContinuationElement1328() (interface{}, error) {
+func (c *current) onListContinuationElement1334() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+func (p *parser) callonListContinuationElement1334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1328()
+	return p.cur.onListContinuationElement1334()
 }
 
-func (c *current) onListContinuationElement1343() (interface{}, error) {
+func (c *current) onListContinuationElement1349() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1343() (interface{}, error) {
+func (p *parser) callonListContinuationElement1349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1343()
+	return p.cur.onListContinuationElement1349()
 }
 
-func (c *current) onListContinuationElement1346() (interface{}, error) {
+func (c *current) onListContinuationElement1352() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1346() (interface{}, error) {
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1346()
+	return p.cur.onListContinuationElement1352()
 }
 
-func (c *current) onListContinuationElement1338() (interface{}, error) {
+func (c *current) onListContinuationElement1344() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1338() (interface{}, error) {
+func (p *parser) callonListContinuationElement1344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1338()
+	return p.cur.onListContinuationElement1344()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1366() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1366()
 }
 
-func (c *current) onListContinuationElement1363() (interface{}, error) {
+func (c *current) onListContinuationElement1369() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1363() (interface{}, error) {
+func (p *parser) callonListContinuationElement1369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1363()
+	return p.cur.onListContinuationElement1369()
 }
 
-func (c *current) onListContinuationElement1385() (interface{}, error) {
+func (c *current) onListContinuationElement1391() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1385() (interface{}, error) {
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1385()
+	return p.cur.onListContinuationElement1391()
 }
 
-func (c *current) onListContinuationElement1390() (interface{}, error) {
+func (c *current) onListContinuationElement1396() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390()
+	return p.cur.onListContinuationElement1396()
 }
 
-func (c *current) onListContinuationElement1388(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1394(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388(stack["content"])
+	return p.cur.onListContinuationElement1394(stack["content"])
 }
 
-func (c *current) onListContinuationElement1381(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1387(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1381() (interface{}, error) {
+func (p *parser) callonListContinuationElement1387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1381(stack["content"])
+	return p.cur.onListContinuationElement1387(stack["content"])
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1400() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1400()
 }
 
-func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377(stack["cells"])
+	return p.cur.onListContinuationElement1383(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1411() (interface{}, error) {
+func (c *current) onListContinuationElement1417() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+func (p *parser) callonListContinuationElement1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1411()
+	return p.cur.onListContinuationElement1417()
 }
 
-func (c *current) onListContinuationElement1414() (interface{}, error) {
+func (c *current) onListContinuationElement1420() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1414() (interface{}, error) {
+func (p *parser) callonListContinuationElement1420() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1414()
+	return p.cur.onListContinuationElement1420()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1435() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1435()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1438() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1438()
 }
 
-func (c *current) onListContinuationElement1424() (interface{}, error) {
+func (c *current) onListContinuationElement1430() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1424() (interface{}, error) {
+func (p *parser) callonListContinuationElement1430() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1424()
+	return p.cur.onListContinuationElement1430()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1447() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1447()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1452() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1452()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1469() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1469()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1472() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1472()
 }
 
-func (c *current) onListContinuationElement1481() (interface{}, error) {
+func (c *current) onListContinuationElement1487() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+func (p *parser) callonListContinuationElement1487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1481()
+	return p.cur.onListContinuationElement1487()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1476() (interface{}, error) {
+func (c *current) onListContinuationElement1482() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1476() (interface{}, error) {
+func (p *parser) callonListContinuationElement1482() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476()
+	return p.cur.onListContinuationElement1482()
 }
 
-func (c *current) onListContinuationElement1495() (interface{}, error) {
+func (c *current) onListContinuationElement1501() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1501() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495()
+	return p.cur.onListContinuationElement1501()
 }
 
-func (c *current) onListContinuationElement1500() (interface{}, error) {
+func (c *current) onListContinuationElement1506() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1500() (interface{}, error) {
+func (p *parser) callonListContinuationElement1506() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1500()
+	return p.cur.onListContinuationElement1506()
 }
 
-func (c *current) onListContinuationElement1505() (interface{}, error) {
+func (c *current) onListContinuationElement1511() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1505() (interface{}, error) {
+func (p *parser) callonListContinuationElement1511() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1505()
+	return p.cur.onListContinuationElement1511()
 }
 
-func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1462(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["content"])
+	return p.cur.onListContinuationElement1462(stack["content"])
 }
 
-func (c *current) onListContinuationElement1404(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1410(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1410(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1401(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1407(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1401() (interface{}, error) {
+func (p *parser) callonListContinuationElement1407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1401(stack["cells"])
+	return p.cur.onListContinuationElement1407(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1374(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374(stack["cells"])
+	return p.cur.onListContinuationElement1380(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1523() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1523() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1523()
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1512() (interface{}, error) {
+func (c *current) onListContinuationElement1518() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1512() (interface{}, error) {
+func (p *parser) callonListContinuationElement1518() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1512()
+	return p.cur.onListContinuationElement1518()
 }
 
-func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1359(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+func (p *parser) callonListContinuationElement1359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1353(stack["content"])
+	return p.cur.onListContinuationElement1359(stack["content"])
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1537()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1540() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1540()
 }
 
-func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1321() (interface{}, error) {
+func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1321(stack["lines"])
+	return p.cur.onListContinuationElement1327(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1549() (interface{}, error) {
+func (c *current) onListContinuationElement1555() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1555() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549()
+	return p.cur.onListContinuationElement1555()
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1559() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1559()
 }
 
-func (c *current) onListContinuationElement1543(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1549(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1549() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543(stack["content"])
+	return p.cur.onListContinuationElement1549(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566() (bool, error) {
+func (c *current) onListContinuationElement1572() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (bool, error) {
+func (p *parser) callonListContinuationElement1572() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566()
+	return p.cur.onListContinuationElement1572()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1575() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1575()
 }
 
-func (c *current) onListContinuationElement1571() (interface{}, error) {
+func (c *current) onListContinuationElement1577() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1571() (interface{}, error) {
+func (p *parser) callonListContinuationElement1577() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1571()
+	return p.cur.onListContinuationElement1577()
 }
 
-func (c *current) onListContinuationElement1573() (interface{}, error) {
+func (c *current) onListContinuationElement1579() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573()
+	return p.cur.onListContinuationElement1579()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1581() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1581()
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
+func (c *current) onListContinuationElement1583() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1583() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1583()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1587() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1587()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1585() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1585()
 }
 
-func (c *current) onListContinuationElement1587() (interface{}, error) {
+func (c *current) onListContinuationElement1593() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1587() (interface{}, error) {
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1587()
+	return p.cur.onListContinuationElement1593()
 }
 
-func (c *current) onListContinuationElement1590() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1590()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1564(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1570(style interface{}) (interface{}, error) {
 	// there must be some content on the line
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+func (p *parser) callonListContinuationElement1570() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1564(stack["style"])
+	return p.cur.onListContinuationElement1570(stack["style"])
 }
 
-func (c *current) onListContinuationElement1606() (interface{}, error) {
+func (c *current) onListContinuationElement1612() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1606() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1606()
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1615() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1615()
 }
 
-func (c *current) onListContinuationElement1601() (interface{}, error) {
+func (c *current) onListContinuationElement1607() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1601() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1601()
+	return p.cur.onListContinuationElement1607()
 }
 
-func (c *current) onListContinuationElement1620() (interface{}, error) {
+func (c *current) onListContinuationElement1626() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1620() (interface{}, error) {
+func (p *parser) callonListContinuationElement1626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1620()
+	return p.cur.onListContinuationElement1626()
 }
 
-func (c *current) onListContinuationElement1622() (interface{}, error) {
+func (c *current) onListContinuationElement1628() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1628() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622()
+	return p.cur.onListContinuationElement1628()
 }
 
-func (c *current) onListContinuationElement1631() (interface{}, error) {
+func (c *current) onListContinuationElement1637() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1631() (interface{}, error) {
+func (p *parser) callonListContinuationElement1637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631()
+	return p.cur.onListContinuationElement1637()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1644() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1641(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1647(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1641() (bool, error) {
+func (p *parser) callonListContinuationElement1647() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641(stack["depth"])
+	return p.cur.onListContinuationElement1647(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1635(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1641(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66812,756 +66980,756 @@ func (c *current) onListContinuationElement1635(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1635() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1635(stack["depth"])
+	return p.cur.onListContinuationElement1641(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1648() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1653() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1653() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1653()
 }
 
-func (c *current) onListContinuationElement1651() (interface{}, error) {
+func (c *current) onListContinuationElement1657() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651()
+	return p.cur.onListContinuationElement1657()
 }
 
-func (c *current) onListContinuationElement1655() (interface{}, error) {
+func (c *current) onListContinuationElement1661() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1655() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1655()
+	return p.cur.onListContinuationElement1661()
 }
 
-func (c *current) onListContinuationElement1660() (interface{}, error) {
+func (c *current) onListContinuationElement1666() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660()
+	return p.cur.onListContinuationElement1666()
 }
 
-func (c *current) onListContinuationElement1665(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1671(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1665() (interface{}, error) {
+func (p *parser) callonListContinuationElement1671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1665(stack["prefix"])
+	return p.cur.onListContinuationElement1671(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1628(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1634(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1628() (interface{}, error) {
+func (p *parser) callonListContinuationElement1634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628(stack["prefix"])
+	return p.cur.onListContinuationElement1634(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1672() (interface{}, error) {
+func (c *current) onListContinuationElement1678() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672()
+	return p.cur.onListContinuationElement1678()
 }
 
-func (c *current) onListContinuationElement1675() (interface{}, error) {
+func (c *current) onListContinuationElement1681() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1675() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1675()
+	return p.cur.onListContinuationElement1681()
 }
 
-func (c *current) onListContinuationElement1680(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1686(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (bool, error) {
+func (p *parser) callonListContinuationElement1686() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680(stack["style"])
+	return p.cur.onListContinuationElement1686(stack["style"])
 }
 
-func (c *current) onListContinuationElement1681(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1687(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681(stack["style"])
+	return p.cur.onListContinuationElement1687(stack["style"])
 }
 
-func (c *current) onListContinuationElement1669(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1675(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1669() (interface{}, error) {
+func (p *parser) callonListContinuationElement1675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1669(stack["style"])
+	return p.cur.onListContinuationElement1675(stack["style"])
 }
 
-func (c *current) onListContinuationElement1689() (interface{}, error) {
+func (c *current) onListContinuationElement1695() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689()
+	return p.cur.onListContinuationElement1695()
 }
 
-func (c *current) onListContinuationElement1693(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1699(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1693() (interface{}, error) {
+func (p *parser) callonListContinuationElement1699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1693(stack["ref"])
+	return p.cur.onListContinuationElement1699(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1685(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1691(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685(stack["ref"])
+	return p.cur.onListContinuationElement1691(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1705() (interface{}, error) {
+func (c *current) onListContinuationElement1717() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1705() (interface{}, error) {
+func (p *parser) callonListContinuationElement1717() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1705()
+	return p.cur.onListContinuationElement1717()
 }
 
-func (c *current) onListContinuationElement1708(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1720(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1708() (bool, error) {
+func (p *parser) callonListContinuationElement1720() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1708(stack["separator"])
+	return p.cur.onListContinuationElement1720(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1702(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1714(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1702() (interface{}, error) {
+func (p *parser) callonListContinuationElement1714() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1702(stack["separator"])
+	return p.cur.onListContinuationElement1714(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1711() (interface{}, error) {
+func (c *current) onListContinuationElement1723() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1711() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1711()
+	return p.cur.onListContinuationElement1723()
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1704() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1704()
 }
 
-func (c *current) onListContinuationElement1722() (interface{}, error) {
+func (c *current) onListContinuationElement1734() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1722() (interface{}, error) {
+func (p *parser) callonListContinuationElement1734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1722()
+	return p.cur.onListContinuationElement1734()
 }
 
-func (c *current) onListContinuationElement1725(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1737(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1725() (bool, error) {
+func (p *parser) callonListContinuationElement1737() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725(stack["separator"])
+	return p.cur.onListContinuationElement1737(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1719(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1731(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1719() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1719(stack["separator"])
+	return p.cur.onListContinuationElement1731(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1736() (interface{}, error) {
+func (c *current) onListContinuationElement1748() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1736() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1736()
+	return p.cur.onListContinuationElement1748()
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1754() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1754()
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1757() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1757()
 }
 
-func (c *current) onListContinuationElement1733(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1745(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1733() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1733(stack["delimiter"])
+	return p.cur.onListContinuationElement1745(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1755() (interface{}, error) {
+func (c *current) onListContinuationElement1767() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1755() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1755()
+	return p.cur.onListContinuationElement1767()
 }
 
-func (c *current) onListContinuationElement1761() (interface{}, error) {
+func (c *current) onListContinuationElement1773() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1761() (interface{}, error) {
+func (p *parser) callonListContinuationElement1773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1761()
+	return p.cur.onListContinuationElement1773()
 }
 
-func (c *current) onListContinuationElement1764() (interface{}, error) {
+func (c *current) onListContinuationElement1776() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1764() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1764()
+	return p.cur.onListContinuationElement1776()
 }
 
-func (c *current) onListContinuationElement1752(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1764(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1752() (interface{}, error) {
+func (p *parser) callonListContinuationElement1764() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1752(stack["delimiter"])
+	return p.cur.onListContinuationElement1764(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1775() (interface{}, error) {
+func (c *current) onListContinuationElement1787() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775()
+	return p.cur.onListContinuationElement1787()
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1791() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1791()
 }
 
-func (c *current) onListContinuationElement1782() (interface{}, error) {
+func (c *current) onListContinuationElement1794() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1782() (interface{}, error) {
+func (p *parser) callonListContinuationElement1794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1782()
+	return p.cur.onListContinuationElement1794()
 }
 
-func (c *current) onListContinuationElement1771(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1783(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1771() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1771(stack["language"])
+	return p.cur.onListContinuationElement1783(stack["language"])
 }
 
-func (c *current) onListContinuationElement1792() (interface{}, error) {
+func (c *current) onListContinuationElement1804() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1792() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1792()
+	return p.cur.onListContinuationElement1804()
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1810() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1810() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1810()
 }
 
-func (c *current) onListContinuationElement1801() (interface{}, error) {
+func (c *current) onListContinuationElement1813() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801()
+	return p.cur.onListContinuationElement1813()
 }
 
-func (c *current) onListContinuationElement1789(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1801(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1789() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1789(stack["delimiter"])
+	return p.cur.onListContinuationElement1801(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1811() (interface{}, error) {
+func (c *current) onListContinuationElement1823() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1811() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1811()
+	return p.cur.onListContinuationElement1823()
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1829() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1829()
 }
 
-func (c *current) onListContinuationElement1820() (interface{}, error) {
+func (c *current) onListContinuationElement1832() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820()
+	return p.cur.onListContinuationElement1832()
 }
 
-func (c *current) onListContinuationElement1808(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1820(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1808() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1808(stack["delimiter"])
+	return p.cur.onListContinuationElement1820(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1830() (interface{}, error) {
+func (c *current) onListContinuationElement1842() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1830() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1830()
+	return p.cur.onListContinuationElement1842()
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1848() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1848()
 }
 
-func (c *current) onListContinuationElement1839() (interface{}, error) {
+func (c *current) onListContinuationElement1851() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839()
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1827(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1839(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1827() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1827(stack["delimiter"])
+	return p.cur.onListContinuationElement1839(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1849() (interface{}, error) {
+func (c *current) onListContinuationElement1861() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1849() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1849()
+	return p.cur.onListContinuationElement1861()
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1867() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1867()
 }
 
-func (c *current) onListContinuationElement1858() (interface{}, error) {
+func (c *current) onListContinuationElement1870() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1870() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858()
+	return p.cur.onListContinuationElement1870()
 }
 
-func (c *current) onListContinuationElement1846(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1858(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1846() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1846(stack["delimiter"])
+	return p.cur.onListContinuationElement1858(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1868() (interface{}, error) {
+func (c *current) onListContinuationElement1880() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1868() (interface{}, error) {
+func (p *parser) callonListContinuationElement1880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1868()
+	return p.cur.onListContinuationElement1880()
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1886() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1886() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1886()
 }
 
-func (c *current) onListContinuationElement1877() (interface{}, error) {
+func (c *current) onListContinuationElement1889() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonListContinuationElement1889() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877()
+	return p.cur.onListContinuationElement1889()
 }
 
-func (c *current) onListContinuationElement1865(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1877(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1865() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1865(stack["delimiter"])
+	return p.cur.onListContinuationElement1877(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1887() (interface{}, error) {
+func (c *current) onListContinuationElement1899() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1887() (interface{}, error) {
+func (p *parser) callonListContinuationElement1899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1887()
+	return p.cur.onListContinuationElement1899()
 }
 
-func (c *current) onListContinuationElement1893() (interface{}, error) {
+func (c *current) onListContinuationElement1905() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1893() (interface{}, error) {
+func (p *parser) callonListContinuationElement1905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1893()
+	return p.cur.onListContinuationElement1905()
 }
 
-func (c *current) onListContinuationElement1896() (interface{}, error) {
+func (c *current) onListContinuationElement1908() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1896() (interface{}, error) {
+func (p *parser) callonListContinuationElement1908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1896()
+	return p.cur.onListContinuationElement1908()
 }
 
-func (c *current) onListContinuationElement1884(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1896(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1884() (interface{}, error) {
+func (p *parser) callonListContinuationElement1896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1884(stack["delimiter"])
+	return p.cur.onListContinuationElement1896(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1727(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1727() (interface{}, error) {
+func (p *parser) callonListContinuationElement1739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1727(stack["delimiter"])
+	return p.cur.onListContinuationElement1739(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1904() (interface{}, error) {
+func (c *current) onListContinuationElement1916() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904()
+	return p.cur.onListContinuationElement1916()
 }
 
-func (c *current) onListContinuationElement1908() (interface{}, error) {
+func (c *current) onListContinuationElement1920() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1908() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1908()
+	return p.cur.onListContinuationElement1920()
 }
 
-func (c *current) onListContinuationElement1598(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1604(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1598() (interface{}, error) {
+func (p *parser) callonListContinuationElement1604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1598(stack["content"])
+	return p.cur.onListContinuationElement1604(stack["content"])
 }
 
-func (c *current) onListContinuationElement1560(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1566(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1566(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
@@ -71291,96 +71459,96 @@ func (p *parser) callonNormalGroup61() (interface{}, error) {
 	return p.cur.onNormalGroup61(stack["element"])
 }
 
-func (c *current) onNormalGroup135() (bool, error) {
+func (c *current) onNormalGroup136() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup135() (bool, error) {
+func (p *parser) callonNormalGroup136() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup135()
+	return p.cur.onNormalGroup136()
 }
 
-func (c *current) onNormalGroup137() (interface{}, error) {
+func (c *current) onNormalGroup138() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup137() (interface{}, error) {
+func (p *parser) callonNormalGroup138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup137()
+	return p.cur.onNormalGroup138()
 }
 
-func (c *current) onNormalGroup133(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup134(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup133() (interface{}, error) {
+func (p *parser) callonNormalGroup134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup133(stack["element"])
+	return p.cur.onNormalGroup134(stack["element"])
 }
 
-func (c *current) onNormalGroup141() (bool, error) {
+func (c *current) onNormalGroup142() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup141() (bool, error) {
+func (p *parser) callonNormalGroup142() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup141()
+	return p.cur.onNormalGroup142()
 }
 
-func (c *current) onNormalGroup143() (bool, error) {
+func (c *current) onNormalGroup144() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup143() (bool, error) {
+func (p *parser) callonNormalGroup144() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup143()
+	return p.cur.onNormalGroup144()
 }
 
-func (c *current) onNormalGroup145() (interface{}, error) {
+func (c *current) onNormalGroup146() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup145() (interface{}, error) {
+func (p *parser) callonNormalGroup146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup145()
+	return p.cur.onNormalGroup146()
 }
 
-func (c *current) onNormalGroup149() (interface{}, error) {
+func (c *current) onNormalGroup150() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup149() (interface{}, error) {
+func (p *parser) callonNormalGroup150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup149()
+	return p.cur.onNormalGroup150()
 }
 
-func (c *current) onNormalGroup139() (interface{}, error) {
+func (c *current) onNormalGroup140() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup139() (interface{}, error) {
+func (p *parser) callonNormalGroup140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup139()
+	return p.cur.onNormalGroup140()
 }
 
 func (c *current) onNormalGroup161() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 4967021..71d30a1 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1659,6 +1659,7 @@ LabeledListElement <-
     }
 
 LabeledListElementTerm <- 
+    !SinglelineCommentDelimiter
     (!LabeledListElementSeparator !EOL .)+ {
         return types.NewRawLine(strings.TrimSpace(string(c.text)))
     }
@@ -2374,11 +2375,11 @@ NormalGroup <- // TODO: verify same order of rules as in AttributeStructuredValu
             / Newline
             / AttributeReference
             / Quote
+            / InlinePassthrough // must be before InlineMacro (because of EmailAddress)
             / InlineMacro // must be before SpecialCharacter (because of CrossReference)
             / Callout // must be placed before SpecialCharacter
             / SpecialCharacter // must be after InlineMacro (because of BareURL) and Callout
             / LineBreak 
-            / InlinePassthrough
             / ElementPlaceHolder // TODO: needed when parsing a second time? after first pass returned attribute substitutions
             / AnyChar) {
                 c.trackElement(element)
-- 
2.43.0


From f26e52e597d40be3d4e9f8d5e3b34c19a16aca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 27/76] fix: close the last cell of horizontal labeled lists
 without description

---
 pkg/renderer/sgml/html5/labeled_list.go  | 2 +-
 pkg/renderer/sgml/list.go                | 8 +++++---
 pkg/renderer/sgml/xhtml5/labeled_list.go | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/html5/labeled_list.go b/pkg/renderer/sgml/html5/labeled_list.go
index cc03070..d5459c1 100644
--- a/pkg/renderer/sgml/html5/labeled_list.go
+++ b/pkg/renderer/sgml/html5/labeled_list.go
@@ -20,7 +20,7 @@ const (
 	labeledListHorizontalElementTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 
 	qAndAListTmpl = "<div{{ if .ID }} id=\"{{ .ID }}\"{{ end }} " +
 		"class=\"qlist qanda{{ if .Roles }} {{ .Roles }}{{ end }}\"" +
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 84e3522..5c44c80 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -204,12 +204,12 @@ func (r *sgmlRenderer) renderLabeledList(ctx *context, l *types.List) (string, e
 
 	content := &strings.Builder{}
 	cont := false
-	for _, element := range l.Elements {
+	for i, element := range l.Elements {
 		e, ok := element.(*types.LabeledListElement)
 		if !ok {
 			return "", errors.Errorf("unable to render labeled list element of type '%T'", element)
 		}
-		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, e); err != nil {
+		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, i == len(l.Elements)-1, e); err != nil {
 			return "", errors.Wrap(err, "unable to render labeled list")
 		}
 	}
@@ -278,7 +278,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 	return listTmpl, listElementTmpl, nil
 }
 
-func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation bool, element *types.LabeledListElement) (bool, error) {
+func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation, last bool, element *types.LabeledListElement) (bool, error) {
 
 	term, err := r.renderInlineElements(ctx, element.Term)
 	if err != nil {
@@ -293,10 +293,12 @@ func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Te
 		Term         string
 		Content      string
 		Continuation bool
+		Last         bool
 	}{
 		Context:      ctx,
 		Term:         string(term),
 		Continuation: continuation,
+		Last:         last,
 		Content:      string(content),
 	})
 	return content == "", err
diff --git a/pkg/renderer/sgml/xhtml5/labeled_list.go b/pkg/renderer/sgml/xhtml5/labeled_list.go
index 7933bb4..408f2d7 100644
--- a/pkg/renderer/sgml/xhtml5/labeled_list.go
+++ b/pkg/renderer/sgml/xhtml5/labeled_list.go
@@ -4,5 +4,5 @@ const (
 	labeledListHorizontalItemTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br/>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 )
-- 
2.43.0


From 0c11fd38ce12ff05d0b2e0674487ac29dbdb8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 28/76] fix: render quote blocks with an unknown style as quote
 blocks

---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 941bef8..69c1cdb 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2509,8 +2509,8 @@ func (b *DelimitedBlock) mapAttributes() {
 			AttrPositional2: AttrQuoteAuthor,
 			AttrPositional3: AttrQuoteTitle,
 		})
-		// override the `kind` with `style` attribute (if exists)
-		if style, exists := b.Attributes[AttrStyle].(string); exists {
+		// override the `kind` with `style` attribute (if it exists and applies to a quote block)
+		if style, exists := b.Attributes[AttrStyle].(string); exists && style == Verse {
 			b.Kind = style
 		}
 	case Example:
-- 
2.43.0


From 1ebf92e7ee6f583e86c9680bbbff1d690134b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 29/76] fix: render tables without rows other than the header
 and footer, or whose header has blocks

---
 ...document_processing_apply_substitutions.go |   9 +-
 pkg/renderer/sgml/html5/table.go              |   2 +-
 pkg/renderer/sgml/table.go                    | 100 ++++++++++--------
 pkg/renderer/sgml/xhtml5/table.go             |   2 +-
 pkg/types/types.go                            |  23 +++-
 5 files changed, 79 insertions(+), 57 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 6051d69..bb5a139 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -157,13 +157,8 @@ func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option
 	}
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
-			// assume elements to process were wrapped in a paragraph at parse time
-			if len(c.Elements) == 1 {
-				if p, ok := c.Elements[0].(*types.Paragraph); ok {
-					if err := applySubstitutionsOnWithElements(ctx, p, opts...); err != nil {
-						return err
-					}
-				}
+			if err := applySubstitutionsOnWithElements(ctx, c, opts...); err != nil {
+				return err
 			}
 		}
 	}
diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 5d3e8c7..7fc5b22 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 26e5f70..ed9ff4a 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -142,25 +141,25 @@ func (r *sgmlRenderer) renderTableHeader(ctx *context, h *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
-	if len(c.Elements) == 1 {
-		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render header cell")
-			}
-			return r.execute(r.tableHeaderCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
-		}
+	var content string
+	var err error
+	if p, ok := singleParagraph(c); ok {
+		content, err = r.renderInlineElements(ctx, p.Elements)
+	} else {
+		content, err = r.renderTableCellElements(ctx, c.Elements)
+	}
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render header cell")
 	}
-	return "", fmt.Errorf("invalid header content (expected a single paragraph)")
+	return r.execute(r.tableHeaderCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols []*types.TableColumn) (string, error) {
@@ -189,25 +188,44 @@ func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	p, ok := singleParagraph(c)
+	if !ok {
+		return r.renderTableCell(ctx, c, col)
+	}
+	content, err := r.renderInlineElements(ctx, p.Elements)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render footer cell")
+	}
+	return r.execute(r.tableFooterCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
+}
+
+// returns the single paragraph in the given cell, if that's its only content
+func singleParagraph(c *types.TableCell) (*types.Paragraph, bool) {
 	if len(c.Elements) == 1 {
-		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render footer cell")
-			}
-			return r.execute(r.tableFooterCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
+		p, ok := c.Elements[0].(*types.Paragraph)
+		return p, ok
+	}
+	return nil, false
+}
+
+func (r *sgmlRenderer) renderTableCellElements(ctx *context, elements []interface{}) (string, error) {
+	buff := &strings.Builder{}
+	for _, element := range elements {
+		renderedElement, err := r.renderTableCellBlock(ctx, element)
+		if err != nil {
+			return "", err
 		}
+		buff.WriteString(renderedElement)
 	}
-	return "", fmt.Errorf("invalid footer content (expected a single paragraph)")
+	return buff.String(), nil
 }
 
 func (r *sgmlRenderer) renderTableBody(ctx *context, rows []*types.TableRow, columns []*types.TableColumn) (string, error) {
@@ -253,13 +271,9 @@ func (r *sgmlRenderer) renderTableRow(ctx *context, l *types.TableRow, cols []*t
 }
 
 func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col *types.TableColumn) (string, error) {
-	buff := &strings.Builder{}
-	for _, element := range cell.Elements {
-		renderedElement, err := r.renderTableCellBlock(ctx, element)
-		if err != nil {
-			return "", err
-		}
-		buff.WriteString(renderedElement)
+	content, err := r.renderTableCellElements(ctx, cell.Elements)
+	if err != nil {
+		return "", err
 	}
 	tmpl := r.tableCell
 	if col.Style == types.HeaderStyle {
@@ -273,7 +287,7 @@ func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col
 		VAlign  types.VAlign
 	}{
 		Context: ctx,
-		Content: buff.String(),
+		Content: content,
 		Cell:    cell,
 		HAlign:  col.HAlign,
 		VAlign:  col.VAlign,
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 8ffd7db..5123ba7 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 69c1cdb..df42d25 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3982,17 +3982,22 @@ func (t *Table) SetColumnDefinitions(cols []interface{}) {
 			size += c.Multiplier
 		}
 	}
+	if size == 0 {
+		// no column was defined
+		return
+	}
 	log.Debugf("re-organizing table in rows of %d cells", size)
 	// reorganize rows/columns
 
 	rows, header, footer := t.rows()
 	t.Rows = organizeTableCells(rows, size)
-	// restore header and footer
-	if header || t.Attributes.HasOption("header") {
+	// restore header and footer (if there are enough rows)
+	t.Header, t.Footer = nil, nil
+	if (header || t.Attributes.HasOption("header")) && len(t.Rows) > 0 {
 		t.Header = t.Rows[0]
 		t.Rows = t.Rows[1:]
 	}
-	if footer || t.Attributes.HasOption("footer") {
+	if (footer || t.Attributes.HasOption("footer")) && len(t.Rows) > 0 {
 		t.Footer = t.Rows[len(t.Rows)-1]
 		t.Rows = t.Rows[:len(t.Rows)-1]
 	}
@@ -4149,8 +4154,9 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	}
 	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	if len(t.Rows) > 0 && len(t.Rows[0].Cells) > len(result) {
-		m := len(t.Rows[0].Cells) - len(result)
+	// (note: there may be no other row than the header and the footer)
+	if rows := t.AllRows(); len(rows) > 0 && len(rows[0].Cells) > len(result) {
+		m := len(rows[0].Cells) - len(result)
 		for i := 0; i < m; i++ {
 			col := newDefaultTableColumn()
 			result = append(result, col)
@@ -4174,6 +4180,13 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 			}
 		} else {
 			// now, compute the Width for each column, based on each one's relative weight
+			if sumWeight == 0 {
+				// no column has a weight, so they all have the same
+				for _, col := range result {
+					col.Weight = 1
+				}
+				sumWeight = len(result)
+			}
 			sumWidth := 0 // sum by a factor 1e5 to retain precision
 			for i, col := range result {
 				if i < len(result)-1 {
-- 
2.43.0


From 49a6337f12be75b613e28103785f5534b583b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 30/76] fix: support the '<=' and '>=' operators in ifeval

---
 pkg/parser/parser.go  | 20408 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    10 +-
 2 files changed, 10210 insertions(+), 10208 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 90cf042..e9228bc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,28 +45,28 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 360, col: 19, offset: 10954},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10954},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 360, col: 19, offset: 10954},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 360, col: 24, offset: 10959},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9780},
 														run: (*parser).callonDocumentRawLine10,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9780},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -74,9 +74,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9791},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 360, col: 45, offset: 10980},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 360, col: 49, offset: 10984},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -150,28 +150,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 362, col: 9, offset: 11075},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11075},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 362, col: 9, offset: 11075},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 362, col: 13, offset: 11079},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9780},
 														run: (*parser).callonDocumentRawLine31,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9780},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -179,9 +179,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9791},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 362, col: 34, offset: 11100},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 362, col: 39, offset: 11105},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -274,12 +274,12 @@ var g = &grammar{
 													pos:   position{line: 70, col: 20, offset: 1773},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 127, col: 28, offset: 3551},
+														pos: position{line: 127, col: 28, offset: 3595},
 														run: (*parser).callonDocumentRawLine53,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 127, col: 28, offset: 3551},
+															pos: position{line: 127, col: 28, offset: 3595},
 															expr: &charClassMatcher{
-																pos:        position{line: 127, col: 28, offset: 3551},
+																pos:        position{line: 127, col: 28, offset: 3595},
 																val:        "[^\\r\\n []",
 																chars:      []rune{'\r', '\n', ' ', '['},
 																ignoreCase: false,
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
@@ -360,12 +360,12 @@ var g = &grammar{
 													pos:   position{line: 74, col: 22, offset: 1951},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 127, col: 28, offset: 3551},
+														pos: position{line: 127, col: 28, offset: 3595},
 														run: (*parser).callonDocumentRawLine72,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 127, col: 28, offset: 3551},
+															pos: position{line: 127, col: 28, offset: 3595},
 															expr: &charClassMatcher{
-																pos:        position{line: 127, col: 28, offset: 3551},
+																pos:        position{line: 127, col: 28, offset: 3595},
 																val:        "[^\\r\\n []",
 																chars:      []rune{'\r', '\n', ' ', '['},
 																ignoreCase: false,
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
@@ -464,31 +464,31 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20363},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20363},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20363},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20371},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine101,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -496,9 +496,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20390},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,28 +520,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20631},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20631},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20631},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20635},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine111,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -549,9 +549,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20654},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,31 +600,31 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20363},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20363},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20363},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20371},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine127,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -632,9 +632,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20390},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,28 +656,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20631},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20631},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20631},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20635},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine137,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -685,9 +685,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20654},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,31 +727,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20363},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20363},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20363},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20371},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								run: (*parser).callonDocumentRawLine151,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9780},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -759,9 +759,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9791},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20390},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,28 +783,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20631},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20631},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20635},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								run: (*parser).callonDocumentRawLine161,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9780},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -812,9 +812,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9791},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20654},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2867, col: 12, offset: 90761},
+																pos: position{line: 2867, col: 12, offset: 90805},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2867, col: 13, offset: 90762},
+																	pos: position{line: 2867, col: 13, offset: 90806},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2867, col: 13, offset: 90762},
+																			pos: position{line: 2867, col: 13, offset: 90806},
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 13, offset: 90762},
+																				pos:        position{line: 2867, col: 13, offset: 90806},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2867, col: 18, offset: 90767},
+																			pos: position{line: 2867, col: 18, offset: 90811},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 18, offset: 90767},
+																				pos:        position{line: 2867, col: 18, offset: 90811},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -995,39 +995,39 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine198,
 																expr: &litMatcher{
 																	pos:        position{line: 106, col: 8, offset: 3009},
-																	val:        "<",
+																	val:        "<=",
 																	ignoreCase: false,
-																	want:       "\"<\"",
+																	want:       "\"<=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 109, col: 8, offset: 3071},
+																pos: position{line: 109, col: 8, offset: 3097},
 																run: (*parser).callonDocumentRawLine200,
 																expr: &litMatcher{
-																	pos:        position{line: 109, col: 8, offset: 3071},
-																	val:        "<=",
+																	pos:        position{line: 109, col: 8, offset: 3097},
+																	val:        "<",
 																	ignoreCase: false,
-																	want:       "\"<=\"",
+																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 112, col: 8, offset: 3137},
+																pos: position{line: 112, col: 8, offset: 3159},
 																run: (*parser).callonDocumentRawLine202,
 																expr: &litMatcher{
-																	pos:        position{line: 112, col: 8, offset: 3137},
-																	val:        ">",
+																	pos:        position{line: 112, col: 8, offset: 3159},
+																	val:        ">=",
 																	ignoreCase: false,
-																	want:       "\">\"",
+																	want:       "\">=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 115, col: 8, offset: 3202},
+																pos: position{line: 115, col: 8, offset: 3250},
 																run: (*parser).callonDocumentRawLine204,
 																expr: &litMatcher{
-																	pos:        position{line: 115, col: 8, offset: 3202},
-																	val:        ">=",
+																	pos:        position{line: 115, col: 8, offset: 3250},
+																	val:        ">",
 																	ignoreCase: false,
-																	want:       "\">=\"",
+																	want:       "\">\"",
 																},
 															},
 														},
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,31 +1069,31 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20363},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20363},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20363},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20371},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine220,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1101,9 +1101,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20390},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,28 +1125,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20631},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20631},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20631},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20635},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine230,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1154,9 +1154,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20654},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,31 +1205,31 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20363},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20363},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20363},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20371},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine246,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1237,9 +1237,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20390},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,28 +1261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20631},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20631},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20631},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20635},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										run: (*parser).callonDocumentRawLine256,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 318, col: 18, offset: 9780},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1290,9 +1290,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 318, col: 29, offset: 9791},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20654},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,31 +1332,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20363},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20363},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20363},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20371},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								run: (*parser).callonDocumentRawLine270,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9780},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1364,9 +1364,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9791},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20390},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,28 +1388,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20631},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20631},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20635},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								run: (*parser).callonDocumentRawLine280,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9780},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1417,9 +1417,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9791},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20654},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2867, col: 12, offset: 90761},
+																pos: position{line: 2867, col: 12, offset: 90805},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2867, col: 13, offset: 90762},
+																	pos: position{line: 2867, col: 13, offset: 90806},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2867, col: 13, offset: 90762},
+																			pos: position{line: 2867, col: 13, offset: 90806},
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 13, offset: 90762},
+																				pos:        position{line: 2867, col: 13, offset: 90806},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2867, col: 18, offset: 90767},
+																			pos: position{line: 2867, col: 18, offset: 90811},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 18, offset: 90767},
+																				pos:        position{line: 2867, col: 18, offset: 90811},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,38 +1576,38 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 123, col: 10, offset: 3328},
+										pos: position{line: 123, col: 10, offset: 3372},
 										run: (*parser).callonDocumentRawLine314,
 										expr: &seqExpr{
-											pos: position{line: 123, col: 10, offset: 3328},
+											pos: position{line: 123, col: 10, offset: 3372},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 123, col: 10, offset: 3328},
+													pos:        position{line: 123, col: 10, offset: 3372},
 													val:        "endif::",
 													ignoreCase: false,
 													want:       "\"endif::\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 123, col: 20, offset: 3338},
+													pos:   position{line: 123, col: 20, offset: 3382},
 													label: "name",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 123, col: 25, offset: 3343},
+														pos: position{line: 123, col: 25, offset: 3387},
 														expr: &actionExpr{
-															pos: position{line: 127, col: 28, offset: 3551},
+															pos: position{line: 127, col: 28, offset: 3595},
 															run: (*parser).callonDocumentRawLine319,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 127, col: 28, offset: 3551},
+																pos: position{line: 127, col: 28, offset: 3595},
 																expr: &charClassMatcher{
-																	pos:        position{line: 127, col: 28, offset: 3551},
+																	pos:        position{line: 127, col: 28, offset: 3595},
 																	val:        "[^\\r\\n []",
 																	chars:      []rune{'\r', '\n', ' ', '['},
 																	ignoreCase: false,
@@ -1618,16 +1618,16 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 123, col: 52, offset: 3370},
+													pos:        position{line: 123, col: 52, offset: 3414},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 123, col: 56, offset: 3374},
+													pos:   position{line: 123, col: 56, offset: 3418},
 													label: "attr",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 123, col: 61, offset: 3379},
+														pos: position{line: 123, col: 61, offset: 3423},
 														expr: &actionExpr{
 															pos: position{line: 78, col: 34, offset: 2142},
 															run: (*parser).callonDocumentRawLine325,
@@ -1645,18 +1645,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 123, col: 94, offset: 3412},
+													pos:        position{line: 123, col: 94, offset: 3456},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 123, col: 98, offset: 3416},
+													pos: position{line: 123, col: 98, offset: 3460},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23042},
+										pos: position{line: 724, col: 5, offset: 23086},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23042},
+											pos: position{line: 724, col: 5, offset: 23086},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 724, col: 5, offset: 23086},
 													expr: &charClassMatcher{
-														pos:        position{line: 2765, col: 13, offset: 88029},
+														pos:        position{line: 2765, col: 13, offset: 88073},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23072},
+													pos:   position{line: 725, col: 5, offset: 23116},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23092},
+														pos: position{line: 726, col: 9, offset: 23136},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23628},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23628},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23628},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23639},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23639},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23639},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23646},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23646},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23730},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 747, col: 5, offset: 23876},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23832},
+																	pos: position{line: 747, col: 5, offset: 23876},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23832},
+																			pos:   position{line: 747, col: 5, offset: 23876},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 747, col: 16, offset: 23887},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23843},
+																					pos: position{line: 747, col: 16, offset: 23887},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23843},
+																							pos:        position{line: 747, col: 16, offset: 23887},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23850},
+																							pos: position{line: 747, col: 23, offset: 23894},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23850},
+																								pos:        position{line: 747, col: 23, offset: 23894},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23934},
+																			pos: position{line: 749, col: 8, offset: 23978},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 760, col: 26, offset: 24364},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24320},
+																	pos: position{line: 760, col: 26, offset: 24364},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24320},
+																			pos:        position{line: 760, col: 26, offset: 24364},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24326},
+																			pos:   position{line: 760, col: 32, offset: 24370},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24456},
+																				pos: position{line: 764, col: 13, offset: 24500},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24457},
+																					pos: position{line: 764, col: 14, offset: 24501},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24457},
+																						pos:        position{line: 764, col: 14, offset: 24501},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24346},
+																			pos: position{line: 760, col: 52, offset: 24390},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 754, col: 5, offset: 24123},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24079},
+																	pos: position{line: 754, col: 5, offset: 24123},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24079},
+																			pos:   position{line: 754, col: 5, offset: 24123},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 754, col: 16, offset: 24134},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24090},
+																					pos: position{line: 754, col: 16, offset: 24134},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24090},
+																							pos:        position{line: 754, col: 16, offset: 24134},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24096},
+																							pos: position{line: 754, col: 22, offset: 24140},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24096},
+																								pos:        position{line: 754, col: 22, offset: 24140},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24180},
+																			pos: position{line: 756, col: 8, offset: 24224},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 769, col: 5, offset: 24660},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24616},
+																	pos: position{line: 769, col: 5, offset: 24660},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24616},
+																			pos:   position{line: 769, col: 5, offset: 24660},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 769, col: 16, offset: 24671},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24627},
+																					pos: position{line: 769, col: 16, offset: 24671},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24627},
+																							pos:        position{line: 769, col: 16, offset: 24671},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24634},
+																							pos: position{line: 769, col: 23, offset: 24678},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24634},
+																								pos:        position{line: 769, col: 23, offset: 24678},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24718},
+																			pos: position{line: 771, col: 8, offset: 24762},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 783, col: 5, offset: 25136},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25092},
+																	pos: position{line: 783, col: 5, offset: 25136},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25092},
+																			pos:   position{line: 783, col: 5, offset: 25136},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 783, col: 16, offset: 25147},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25103},
+																					pos: position{line: 783, col: 16, offset: 25147},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25103},
+																							pos:        position{line: 783, col: 16, offset: 25147},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25110},
+																							pos: position{line: 783, col: 23, offset: 25154},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25110},
+																								pos:        position{line: 783, col: 23, offset: 25154},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25194},
+																			pos: position{line: 785, col: 8, offset: 25238},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 790, col: 5, offset: 25388},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25344},
+																	pos: position{line: 790, col: 5, offset: 25388},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25344},
+																			pos:   position{line: 790, col: 5, offset: 25388},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 790, col: 16, offset: 25399},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25355},
+																					pos: position{line: 790, col: 16, offset: 25399},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25355},
+																							pos:        position{line: 790, col: 16, offset: 25399},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25362},
+																							pos: position{line: 790, col: 23, offset: 25406},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25362},
+																								pos:        position{line: 790, col: 23, offset: 25406},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25446},
+																			pos: position{line: 792, col: 8, offset: 25490},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 797, col: 5, offset: 25638},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25594},
+																	pos: position{line: 797, col: 5, offset: 25638},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25594},
+																			pos:   position{line: 797, col: 5, offset: 25638},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 797, col: 16, offset: 25649},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25605},
+																					pos: position{line: 797, col: 16, offset: 25649},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25605},
+																							pos:        position{line: 797, col: 16, offset: 25649},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25612},
+																							pos: position{line: 797, col: 23, offset: 25656},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25612},
+																								pos:        position{line: 797, col: 23, offset: 25656},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25696},
+																			pos: position{line: 799, col: 8, offset: 25740},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 804, col: 5, offset: 25884},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25840},
+																	pos: position{line: 804, col: 5, offset: 25884},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25840},
+																			pos:   position{line: 804, col: 5, offset: 25884},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 804, col: 16, offset: 25895},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25851},
+																					pos: position{line: 804, col: 16, offset: 25895},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25851},
+																							pos:        position{line: 804, col: 16, offset: 25895},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25858},
+																							pos: position{line: 804, col: 23, offset: 25902},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25858},
+																								pos:        position{line: 804, col: 23, offset: 25902},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25942},
+																			pos: position{line: 806, col: 8, offset: 25986},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2879, col: 11, offset: 90995},
+													pos: position{line: 2879, col: 11, offset: 91039},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2879, col: 11, offset: 90995},
+														pos: position{line: 2879, col: 11, offset: 91039},
 														expr: &charClassMatcher{
-															pos:        position{line: 2879, col: 11, offset: 90995},
+															pos:        position{line: 2879, col: 11, offset: 91039},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2825, col: 14, offset: 89527},
+													pos: position{line: 2825, col: 14, offset: 89571},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2825, col: 14, offset: 89527},
+														pos: position{line: 2825, col: 14, offset: 89571},
 														expr: &charClassMatcher{
-															pos:        position{line: 2825, col: 14, offset: 89527},
+															pos:        position{line: 2825, col: 14, offset: 89571},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -2585,67 +2585,67 @@ var g = &grammar{
 		},
 		{
 			name: "FileInclusion",
-			pos:  position{line: 134, col: 1, offset: 3751},
+			pos:  position{line: 134, col: 1, offset: 3795},
 			expr: &actionExpr{
-				pos: position{line: 135, col: 5, offset: 3773},
+				pos: position{line: 135, col: 5, offset: 3817},
 				run: (*parser).callonFileInclusion1,
 				expr: &seqExpr{
-					pos: position{line: 135, col: 5, offset: 3773},
+					pos: position{line: 135, col: 5, offset: 3817},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 135, col: 5, offset: 3773},
+							pos:   position{line: 135, col: 5, offset: 3817},
 							label: "incl",
 							expr: &actionExpr{
-								pos: position{line: 136, col: 9, offset: 3788},
+								pos: position{line: 136, col: 9, offset: 3832},
 								run: (*parser).callonFileInclusion4,
 								expr: &seqExpr{
-									pos: position{line: 136, col: 9, offset: 3788},
+									pos: position{line: 136, col: 9, offset: 3832},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 136, col: 9, offset: 3788},
+											pos:        position{line: 136, col: 9, offset: 3832},
 											val:        "include::",
 											ignoreCase: false,
 											want:       "\"include::\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 137, col: 9, offset: 3809},
+											pos:   position{line: 137, col: 9, offset: 3853},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2829, col: 17, offset: 89597},
+												pos: position{line: 2829, col: 17, offset: 89641},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2829, col: 17, offset: 89597},
+													pos:   position{line: 2829, col: 17, offset: 89641},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 5, offset: 90051},
+														pos: position{line: 2846, col: 5, offset: 90095},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2846, col: 5, offset: 90051},
+															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2846, col: 14, offset: 90060},
+																pos: position{line: 2846, col: 14, offset: 90104},
 																expr: &choiceExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2847, col: 9, offset: 90070},
+																			pos: position{line: 2847, col: 9, offset: 90114},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2847, col: 9, offset: 90070},
+																						pos: position{line: 2847, col: 9, offset: 90114},
 																						expr: &litMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90071},
+																							pos:        position{line: 2847, col: 10, offset: 90115},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2848, col: 9, offset: 90099},
+																						pos: position{line: 2848, col: 9, offset: 90143},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90100},
+																							pos:        position{line: 2848, col: 10, offset: 90144},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2851, col: 11, offset: 90312},
+																			pos: position{line: 2851, col: 11, offset: 90356},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2851, col: 11, offset: 90312},
+																					pos:        position{line: 2851, col: 11, offset: 90356},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2851, col: 19, offset: 90320},
+																					pos: position{line: 2851, col: 19, offset: 90364},
 																					expr: &seqExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2851, col: 21, offset: 90322},
+																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2851, col: 28, offset: 90329},
+																								pos: position{line: 2851, col: 28, offset: 90373},
 																								expr: &notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -2699,44 +2699,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20153},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20225},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20234},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20363},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20363},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20363},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20371},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonFileInclusion39,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2744,9 +2744,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20390},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,28 +2768,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20631},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20631},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20635},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonFileInclusion49,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2797,9 +2797,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20654},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,28 +2821,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20835},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20835},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20835},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20847},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonFileInclusion59,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2850,9 +2850,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20866},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20872},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20888},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,28 +2930,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21006},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21006},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21006},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21019},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonFileInclusion81,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2959,9 +2959,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21038},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21044},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21060},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 37016},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37044},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37049},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37049},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2854, col: 11, offset: 90449},
+																			pos: position{line: 2854, col: 11, offset: 90493},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 11, offset: 90449},
+																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3102,10 +3102,10 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 138, col: 9, offset: 3838},
+											pos:   position{line: 138, col: 9, offset: 3882},
 											label: "attributes",
 											expr: &ruleRefExpr{
-												pos:  position{line: 138, col: 21, offset: 3850},
+												pos:  position{line: 138, col: 21, offset: 3894},
 												name: "InlineAttributes",
 											},
 										},
@@ -3114,12 +3114,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 142, col: 5, offset: 4005},
+							pos: position{line: 142, col: 5, offset: 4049},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -3171,59 +3171,59 @@ var g = &grammar{
 		},
 		{
 			name: "LineRanges",
-			pos:  position{line: 149, col: 1, offset: 4138},
+			pos:  position{line: 149, col: 1, offset: 4182},
 			expr: &actionExpr{
-				pos: position{line: 149, col: 15, offset: 4152},
+				pos: position{line: 149, col: 15, offset: 4196},
 				run: (*parser).callonLineRanges1,
 				expr: &seqExpr{
-					pos: position{line: 149, col: 15, offset: 4152},
+					pos: position{line: 149, col: 15, offset: 4196},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 149, col: 15, offset: 4152},
+							pos:   position{line: 149, col: 15, offset: 4196},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 149, col: 22, offset: 4159},
+								pos: position{line: 149, col: 22, offset: 4203},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 156, col: 23, offset: 4342},
+										pos: position{line: 156, col: 23, offset: 4386},
 										run: (*parser).callonLineRanges5,
 										expr: &seqExpr{
-											pos: position{line: 156, col: 23, offset: 4342},
+											pos: position{line: 156, col: 23, offset: 4386},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 156, col: 23, offset: 4342},
+													pos:   position{line: 156, col: 23, offset: 4386},
 													label: "first",
 													expr: &choiceExpr{
-														pos: position{line: 156, col: 30, offset: 4349},
+														pos: position{line: 156, col: 30, offset: 4393},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 165, col: 19, offset: 4707},
+																pos: position{line: 165, col: 19, offset: 4751},
 																run: (*parser).callonLineRanges9,
 																expr: &seqExpr{
-																	pos: position{line: 165, col: 19, offset: 4707},
+																	pos: position{line: 165, col: 19, offset: 4751},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 165, col: 19, offset: 4707},
+																			pos:   position{line: 165, col: 19, offset: 4751},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 12, offset: 90761},
+																				pos: position{line: 2867, col: 12, offset: 90805},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2867, col: 13, offset: 90762},
+																					pos: position{line: 2867, col: 13, offset: 90806},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2867, col: 13, offset: 90762},
+																							pos: position{line: 2867, col: 13, offset: 90806},
 																							expr: &litMatcher{
-																								pos:        position{line: 2867, col: 13, offset: 90762},
+																								pos:        position{line: 2867, col: 13, offset: 90806},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2867, col: 18, offset: 90767},
+																							pos: position{line: 2867, col: 18, offset: 90811},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 18, offset: 90767},
+																								pos:        position{line: 2867, col: 18, offset: 90811},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3235,33 +3235,33 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 165, col: 35, offset: 4723},
+																			pos:        position{line: 165, col: 35, offset: 4767},
 																			val:        "..",
 																			ignoreCase: false,
 																			want:       "\"..\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 165, col: 40, offset: 4728},
+																			pos:   position{line: 165, col: 40, offset: 4772},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 12, offset: 90761},
+																				pos: position{line: 2867, col: 12, offset: 90805},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2867, col: 13, offset: 90762},
+																					pos: position{line: 2867, col: 13, offset: 90806},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2867, col: 13, offset: 90762},
+																							pos: position{line: 2867, col: 13, offset: 90806},
 																							expr: &litMatcher{
-																								pos:        position{line: 2867, col: 13, offset: 90762},
+																								pos:        position{line: 2867, col: 13, offset: 90806},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2867, col: 18, offset: 90767},
+																							pos: position{line: 2867, col: 18, offset: 90811},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 18, offset: 90767},
+																								pos:        position{line: 2867, col: 18, offset: 90811},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3276,30 +3276,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 169, col: 20, offset: 4849},
+																pos: position{line: 169, col: 20, offset: 4893},
 																run: (*parser).callonLineRanges26,
 																expr: &labeledExpr{
-																	pos:   position{line: 169, col: 20, offset: 4849},
+																	pos:   position{line: 169, col: 20, offset: 4893},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 12, offset: 90761},
+																		pos: position{line: 2867, col: 12, offset: 90805},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2867, col: 13, offset: 90762},
+																			pos: position{line: 2867, col: 13, offset: 90806},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2867, col: 13, offset: 90762},
+																					pos: position{line: 2867, col: 13, offset: 90806},
 																					expr: &litMatcher{
-																						pos:        position{line: 2867, col: 13, offset: 90762},
+																						pos:        position{line: 2867, col: 13, offset: 90806},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2867, col: 18, offset: 90767},
+																					pos: position{line: 2867, col: 18, offset: 90811},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 18, offset: 90767},
+																						pos:        position{line: 2867, col: 18, offset: 90811},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3315,57 +3315,57 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 157, col: 5, offset: 4388},
+													pos:   position{line: 157, col: 5, offset: 4432},
 													label: "others",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 157, col: 12, offset: 4395},
+														pos: position{line: 157, col: 12, offset: 4439},
 														expr: &actionExpr{
-															pos: position{line: 158, col: 9, offset: 4405},
+															pos: position{line: 158, col: 9, offset: 4449},
 															run: (*parser).callonLineRanges36,
 															expr: &seqExpr{
-																pos: position{line: 158, col: 9, offset: 4405},
+																pos: position{line: 158, col: 9, offset: 4449},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 158, col: 10, offset: 4406},
+																		pos:        position{line: 158, col: 10, offset: 4450},
 																		val:        "[,;]",
 																		chars:      []rune{',', ';'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 159, col: 9, offset: 4523},
+																		pos:   position{line: 159, col: 9, offset: 4567},
 																		label: "other",
 																		expr: &choiceExpr{
-																			pos: position{line: 159, col: 16, offset: 4530},
+																			pos: position{line: 159, col: 16, offset: 4574},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 165, col: 19, offset: 4707},
+																					pos: position{line: 165, col: 19, offset: 4751},
 																					run: (*parser).callonLineRanges41,
 																					expr: &seqExpr{
-																						pos: position{line: 165, col: 19, offset: 4707},
+																						pos: position{line: 165, col: 19, offset: 4751},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 165, col: 19, offset: 4707},
+																								pos:   position{line: 165, col: 19, offset: 4751},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 12, offset: 90761},
+																									pos: position{line: 2867, col: 12, offset: 90805},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2867, col: 13, offset: 90762},
+																										pos: position{line: 2867, col: 13, offset: 90806},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2867, col: 13, offset: 90762},
+																												pos: position{line: 2867, col: 13, offset: 90806},
 																												expr: &litMatcher{
-																													pos:        position{line: 2867, col: 13, offset: 90762},
+																													pos:        position{line: 2867, col: 13, offset: 90806},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2867, col: 18, offset: 90767},
+																												pos: position{line: 2867, col: 18, offset: 90811},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 18, offset: 90767},
+																													pos:        position{line: 2867, col: 18, offset: 90811},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3377,33 +3377,33 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 165, col: 35, offset: 4723},
+																								pos:        position{line: 165, col: 35, offset: 4767},
 																								val:        "..",
 																								ignoreCase: false,
 																								want:       "\"..\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 165, col: 40, offset: 4728},
+																								pos:   position{line: 165, col: 40, offset: 4772},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 12, offset: 90761},
+																									pos: position{line: 2867, col: 12, offset: 90805},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2867, col: 13, offset: 90762},
+																										pos: position{line: 2867, col: 13, offset: 90806},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2867, col: 13, offset: 90762},
+																												pos: position{line: 2867, col: 13, offset: 90806},
 																												expr: &litMatcher{
-																													pos:        position{line: 2867, col: 13, offset: 90762},
+																													pos:        position{line: 2867, col: 13, offset: 90806},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2867, col: 18, offset: 90767},
+																												pos: position{line: 2867, col: 18, offset: 90811},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 18, offset: 90767},
+																													pos:        position{line: 2867, col: 18, offset: 90811},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3418,30 +3418,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 169, col: 20, offset: 4849},
+																					pos: position{line: 169, col: 20, offset: 4893},
 																					run: (*parser).callonLineRanges58,
 																					expr: &labeledExpr{
-																						pos:   position{line: 169, col: 20, offset: 4849},
+																						pos:   position{line: 169, col: 20, offset: 4893},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 12, offset: 90761},
+																							pos: position{line: 2867, col: 12, offset: 90805},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2867, col: 13, offset: 90762},
+																								pos: position{line: 2867, col: 13, offset: 90806},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2867, col: 13, offset: 90762},
+																										pos: position{line: 2867, col: 13, offset: 90806},
 																										expr: &litMatcher{
-																											pos:        position{line: 2867, col: 13, offset: 90762},
+																											pos:        position{line: 2867, col: 13, offset: 90806},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2867, col: 18, offset: 90767},
+																										pos: position{line: 2867, col: 18, offset: 90811},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 18, offset: 90767},
+																											pos:        position{line: 2867, col: 18, offset: 90811},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3465,33 +3465,33 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 165, col: 19, offset: 4707},
+										pos: position{line: 165, col: 19, offset: 4751},
 										run: (*parser).callonLineRanges66,
 										expr: &seqExpr{
-											pos: position{line: 165, col: 19, offset: 4707},
+											pos: position{line: 165, col: 19, offset: 4751},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 165, col: 19, offset: 4707},
+													pos:   position{line: 165, col: 19, offset: 4751},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 12, offset: 90761},
+														pos: position{line: 2867, col: 12, offset: 90805},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2867, col: 13, offset: 90762},
+															pos: position{line: 2867, col: 13, offset: 90806},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2867, col: 13, offset: 90762},
+																	pos: position{line: 2867, col: 13, offset: 90806},
 																	expr: &litMatcher{
-																		pos:        position{line: 2867, col: 13, offset: 90762},
+																		pos:        position{line: 2867, col: 13, offset: 90806},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2867, col: 18, offset: 90767},
+																	pos: position{line: 2867, col: 18, offset: 90811},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 18, offset: 90767},
+																		pos:        position{line: 2867, col: 18, offset: 90811},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3503,33 +3503,33 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 165, col: 35, offset: 4723},
+													pos:        position{line: 165, col: 35, offset: 4767},
 													val:        "..",
 													ignoreCase: false,
 													want:       "\"..\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 165, col: 40, offset: 4728},
+													pos:   position{line: 165, col: 40, offset: 4772},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 12, offset: 90761},
+														pos: position{line: 2867, col: 12, offset: 90805},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2867, col: 13, offset: 90762},
+															pos: position{line: 2867, col: 13, offset: 90806},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2867, col: 13, offset: 90762},
+																	pos: position{line: 2867, col: 13, offset: 90806},
 																	expr: &litMatcher{
-																		pos:        position{line: 2867, col: 13, offset: 90762},
+																		pos:        position{line: 2867, col: 13, offset: 90806},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2867, col: 18, offset: 90767},
+																	pos: position{line: 2867, col: 18, offset: 90811},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 18, offset: 90767},
+																		pos:        position{line: 2867, col: 18, offset: 90811},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3544,30 +3544,30 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 169, col: 20, offset: 4849},
+										pos: position{line: 169, col: 20, offset: 4893},
 										run: (*parser).callonLineRanges83,
 										expr: &labeledExpr{
-											pos:   position{line: 169, col: 20, offset: 4849},
+											pos:   position{line: 169, col: 20, offset: 4893},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 12, offset: 90761},
+												pos: position{line: 2867, col: 12, offset: 90805},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2867, col: 13, offset: 90762},
+													pos: position{line: 2867, col: 13, offset: 90806},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2867, col: 13, offset: 90762},
+															pos: position{line: 2867, col: 13, offset: 90806},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 13, offset: 90762},
+																pos:        position{line: 2867, col: 13, offset: 90806},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2867, col: 18, offset: 90767},
+															pos: position{line: 2867, col: 18, offset: 90811},
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 18, offset: 90767},
+																pos:        position{line: 2867, col: 18, offset: 90811},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -3594,44 +3594,44 @@ var g = &grammar{
 		},
 		{
 			name: "TagRanges",
-			pos:  position{line: 174, col: 1, offset: 4985},
+			pos:  position{line: 174, col: 1, offset: 5029},
 			expr: &actionExpr{
-				pos: position{line: 174, col: 14, offset: 4998},
+				pos: position{line: 174, col: 14, offset: 5042},
 				run: (*parser).callonTagRanges1,
 				expr: &seqExpr{
-					pos: position{line: 174, col: 14, offset: 4998},
+					pos: position{line: 174, col: 14, offset: 5042},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 174, col: 14, offset: 4998},
+							pos:   position{line: 174, col: 14, offset: 5042},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 178, col: 22, offset: 5135},
+								pos: position{line: 178, col: 22, offset: 5179},
 								run: (*parser).callonTagRanges4,
 								expr: &seqExpr{
-									pos: position{line: 178, col: 22, offset: 5135},
+									pos: position{line: 178, col: 22, offset: 5179},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 178, col: 22, offset: 5135},
+											pos:   position{line: 178, col: 22, offset: 5179},
 											label: "first",
 											expr: &choiceExpr{
-												pos: position{line: 187, col: 13, offset: 5445},
+												pos: position{line: 187, col: 13, offset: 5489},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 187, col: 13, offset: 5445},
+														pos: position{line: 187, col: 13, offset: 5489},
 														run: (*parser).callonTagRanges8,
 														expr: &labeledExpr{
-															pos:   position{line: 187, col: 13, offset: 5445},
+															pos:   position{line: 187, col: 13, offset: 5489},
 															label: "tag",
 															expr: &choiceExpr{
-																pos: position{line: 187, col: 18, offset: 5450},
+																pos: position{line: 187, col: 18, offset: 5494},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2769, col: 14, offset: 88103},
+																		pos: position{line: 2769, col: 14, offset: 88147},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2769, col: 14, offset: 88103},
+																			pos: position{line: 2769, col: 14, offset: 88147},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2769, col: 14, offset: 88103},
+																				pos:        position{line: 2769, col: 14, offset: 88147},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3640,21 +3640,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 193, col: 16, offset: 5650},
+																		pos: position{line: 193, col: 16, offset: 5694},
 																		run: (*parser).callonTagRanges14,
 																		expr: &seqExpr{
-																			pos: position{line: 193, col: 16, offset: 5650},
+																			pos: position{line: 193, col: 16, offset: 5694},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 193, col: 16, offset: 5650},
+																					pos:   position{line: 193, col: 16, offset: 5694},
 																					label: "stars",
 																					expr: &actionExpr{
-																						pos: position{line: 193, col: 23, offset: 5657},
+																						pos: position{line: 193, col: 23, offset: 5701},
 																						run: (*parser).callonTagRanges17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 193, col: 23, offset: 5657},
+																							pos: position{line: 193, col: 23, offset: 5701},
 																							expr: &litMatcher{
-																								pos:        position{line: 193, col: 24, offset: 5658},
+																								pos:        position{line: 193, col: 24, offset: 5702},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -3663,7 +3663,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 196, col: 5, offset: 5712},
+																					pos: position{line: 196, col: 5, offset: 5756},
 																					run: (*parser).callonTagRanges20,
 																				},
 																			},
@@ -3674,30 +3674,30 @@ var g = &grammar{
 														},
 													},
 													&actionExpr{
-														pos: position{line: 189, col: 9, offset: 5538},
+														pos: position{line: 189, col: 9, offset: 5582},
 														run: (*parser).callonTagRanges21,
 														expr: &seqExpr{
-															pos: position{line: 189, col: 9, offset: 5538},
+															pos: position{line: 189, col: 9, offset: 5582},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 189, col: 9, offset: 5538},
+																	pos:        position{line: 189, col: 9, offset: 5582},
 																	val:        "!",
 																	ignoreCase: false,
 																	want:       "\"!\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 189, col: 13, offset: 5542},
+																	pos:   position{line: 189, col: 13, offset: 5586},
 																	label: "tag",
 																	expr: &choiceExpr{
-																		pos: position{line: 189, col: 18, offset: 5547},
+																		pos: position{line: 189, col: 18, offset: 5591},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2769, col: 14, offset: 88103},
+																				pos: position{line: 2769, col: 14, offset: 88147},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2769, col: 14, offset: 88103},
+																					pos: position{line: 2769, col: 14, offset: 88147},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2769, col: 14, offset: 88103},
+																						pos:        position{line: 2769, col: 14, offset: 88147},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3706,21 +3706,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 193, col: 16, offset: 5650},
+																				pos: position{line: 193, col: 16, offset: 5694},
 																				run: (*parser).callonTagRanges29,
 																				expr: &seqExpr{
-																					pos: position{line: 193, col: 16, offset: 5650},
+																					pos: position{line: 193, col: 16, offset: 5694},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 193, col: 16, offset: 5650},
+																							pos:   position{line: 193, col: 16, offset: 5694},
 																							label: "stars",
 																							expr: &actionExpr{
-																								pos: position{line: 193, col: 23, offset: 5657},
+																								pos: position{line: 193, col: 23, offset: 5701},
 																								run: (*parser).callonTagRanges32,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 193, col: 23, offset: 5657},
+																									pos: position{line: 193, col: 23, offset: 5701},
 																									expr: &litMatcher{
-																										pos:        position{line: 193, col: 24, offset: 5658},
+																										pos:        position{line: 193, col: 24, offset: 5702},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -3729,7 +3729,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 196, col: 5, offset: 5712},
+																							pos: position{line: 196, col: 5, offset: 5756},
 																							run: (*parser).callonTagRanges35,
 																						},
 																					},
@@ -3745,45 +3745,45 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 179, col: 5, offset: 5156},
+											pos:   position{line: 179, col: 5, offset: 5200},
 											label: "others",
 											expr: &zeroOrMoreExpr{
-												pos: position{line: 179, col: 12, offset: 5163},
+												pos: position{line: 179, col: 12, offset: 5207},
 												expr: &actionExpr{
-													pos: position{line: 180, col: 9, offset: 5173},
+													pos: position{line: 180, col: 9, offset: 5217},
 													run: (*parser).callonTagRanges38,
 													expr: &seqExpr{
-														pos: position{line: 180, col: 9, offset: 5173},
+														pos: position{line: 180, col: 9, offset: 5217},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 180, col: 10, offset: 5174},
+																pos:        position{line: 180, col: 10, offset: 5218},
 																val:        "[,;]",
 																chars:      []rune{',', ';'},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&labeledExpr{
-																pos:   position{line: 181, col: 9, offset: 5291},
+																pos:   position{line: 181, col: 9, offset: 5335},
 																label: "other",
 																expr: &choiceExpr{
-																	pos: position{line: 187, col: 13, offset: 5445},
+																	pos: position{line: 187, col: 13, offset: 5489},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 187, col: 13, offset: 5445},
+																			pos: position{line: 187, col: 13, offset: 5489},
 																			run: (*parser).callonTagRanges43,
 																			expr: &labeledExpr{
-																				pos:   position{line: 187, col: 13, offset: 5445},
+																				pos:   position{line: 187, col: 13, offset: 5489},
 																				label: "tag",
 																				expr: &choiceExpr{
-																					pos: position{line: 187, col: 18, offset: 5450},
+																					pos: position{line: 187, col: 18, offset: 5494},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2769, col: 14, offset: 88103},
+																							pos: position{line: 2769, col: 14, offset: 88147},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2769, col: 14, offset: 88103},
+																								pos: position{line: 2769, col: 14, offset: 88147},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2769, col: 14, offset: 88103},
+																									pos:        position{line: 2769, col: 14, offset: 88147},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3792,21 +3792,21 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 193, col: 16, offset: 5650},
+																							pos: position{line: 193, col: 16, offset: 5694},
 																							run: (*parser).callonTagRanges49,
 																							expr: &seqExpr{
-																								pos: position{line: 193, col: 16, offset: 5650},
+																								pos: position{line: 193, col: 16, offset: 5694},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 193, col: 16, offset: 5650},
+																										pos:   position{line: 193, col: 16, offset: 5694},
 																										label: "stars",
 																										expr: &actionExpr{
-																											pos: position{line: 193, col: 23, offset: 5657},
+																											pos: position{line: 193, col: 23, offset: 5701},
 																											run: (*parser).callonTagRanges52,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 193, col: 23, offset: 5657},
+																												pos: position{line: 193, col: 23, offset: 5701},
 																												expr: &litMatcher{
-																													pos:        position{line: 193, col: 24, offset: 5658},
+																													pos:        position{line: 193, col: 24, offset: 5702},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -3815,7 +3815,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 196, col: 5, offset: 5712},
+																										pos: position{line: 196, col: 5, offset: 5756},
 																										run: (*parser).callonTagRanges55,
 																									},
 																								},
@@ -3826,30 +3826,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 189, col: 9, offset: 5538},
+																			pos: position{line: 189, col: 9, offset: 5582},
 																			run: (*parser).callonTagRanges56,
 																			expr: &seqExpr{
-																				pos: position{line: 189, col: 9, offset: 5538},
+																				pos: position{line: 189, col: 9, offset: 5582},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 189, col: 9, offset: 5538},
+																						pos:        position{line: 189, col: 9, offset: 5582},
 																						val:        "!",
 																						ignoreCase: false,
 																						want:       "\"!\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 189, col: 13, offset: 5542},
+																						pos:   position{line: 189, col: 13, offset: 5586},
 																						label: "tag",
 																						expr: &choiceExpr{
-																							pos: position{line: 189, col: 18, offset: 5547},
+																							pos: position{line: 189, col: 18, offset: 5591},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2769, col: 14, offset: 88103},
+																									pos: position{line: 2769, col: 14, offset: 88147},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2769, col: 14, offset: 88103},
+																										pos: position{line: 2769, col: 14, offset: 88147},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2769, col: 14, offset: 88103},
+																											pos:        position{line: 2769, col: 14, offset: 88147},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3858,21 +3858,21 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 193, col: 16, offset: 5650},
+																									pos: position{line: 193, col: 16, offset: 5694},
 																									run: (*parser).callonTagRanges64,
 																									expr: &seqExpr{
-																										pos: position{line: 193, col: 16, offset: 5650},
+																										pos: position{line: 193, col: 16, offset: 5694},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 193, col: 16, offset: 5650},
+																												pos:   position{line: 193, col: 16, offset: 5694},
 																												label: "stars",
 																												expr: &actionExpr{
-																													pos: position{line: 193, col: 23, offset: 5657},
+																													pos: position{line: 193, col: 23, offset: 5701},
 																													run: (*parser).callonTagRanges67,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 193, col: 23, offset: 5657},
+																														pos: position{line: 193, col: 23, offset: 5701},
 																														expr: &litMatcher{
-																															pos:        position{line: 193, col: 24, offset: 5658},
+																															pos:        position{line: 193, col: 24, offset: 5702},
 																															val:        "*",
 																															ignoreCase: false,
 																															want:       "\"*\"",
@@ -3881,7 +3881,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 196, col: 5, offset: 5712},
+																												pos: position{line: 196, col: 5, offset: 5756},
 																												run: (*parser).callonTagRanges70,
 																											},
 																										},
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -3917,46 +3917,46 @@ var g = &grammar{
 		},
 		{
 			name: "IncludedFileLine",
-			pos:  position{line: 203, col: 1, offset: 5879},
+			pos:  position{line: 203, col: 1, offset: 5923},
 			expr: &actionExpr{
-				pos: position{line: 203, col: 21, offset: 5899},
+				pos: position{line: 203, col: 21, offset: 5943},
 				run: (*parser).callonIncludedFileLine1,
 				expr: &seqExpr{
-					pos: position{line: 203, col: 21, offset: 5899},
+					pos: position{line: 203, col: 21, offset: 5943},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 203, col: 21, offset: 5899},
+							pos:   position{line: 203, col: 21, offset: 5943},
 							label: "content",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 203, col: 29, offset: 5907},
+								pos: position{line: 203, col: 29, offset: 5951},
 								expr: &choiceExpr{
-									pos: position{line: 203, col: 30, offset: 5908},
+									pos: position{line: 203, col: 30, offset: 5952},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 207, col: 25, offset: 6088},
+											pos: position{line: 207, col: 25, offset: 6132},
 											run: (*parser).callonIncludedFileLine6,
 											expr: &seqExpr{
-												pos: position{line: 207, col: 25, offset: 6088},
+												pos: position{line: 207, col: 25, offset: 6132},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 207, col: 25, offset: 6088},
+														pos:        position{line: 207, col: 25, offset: 6132},
 														val:        "tag::",
 														ignoreCase: false,
 														want:       "\"tag::\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 207, col: 33, offset: 6096},
+														pos:   position{line: 207, col: 33, offset: 6140},
 														label: "tag",
 														expr: &actionExpr{
-															pos: position{line: 207, col: 38, offset: 6101},
+															pos: position{line: 207, col: 38, offset: 6145},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2769, col: 14, offset: 88103},
+																pos: position{line: 2769, col: 14, offset: 88147},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2769, col: 14, offset: 88103},
+																	pos: position{line: 2769, col: 14, offset: 88147},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2769, col: 14, offset: 88103},
+																		pos:        position{line: 2769, col: 14, offset: 88147},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3967,7 +3967,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 207, col: 78, offset: 6141},
+														pos:        position{line: 207, col: 78, offset: 6185},
 														val:        "[]",
 														ignoreCase: false,
 														want:       "\"[]\"",
@@ -3976,30 +3976,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 211, col: 23, offset: 6236},
+											pos: position{line: 211, col: 23, offset: 6280},
 											run: (*parser).callonIncludedFileLine15,
 											expr: &seqExpr{
-												pos: position{line: 211, col: 23, offset: 6236},
+												pos: position{line: 211, col: 23, offset: 6280},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 211, col: 23, offset: 6236},
+														pos:        position{line: 211, col: 23, offset: 6280},
 														val:        "end::",
 														ignoreCase: false,
 														want:       "\"end::\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 211, col: 31, offset: 6244},
+														pos:   position{line: 211, col: 31, offset: 6288},
 														label: "tag",
 														expr: &actionExpr{
-															pos: position{line: 211, col: 36, offset: 6249},
+															pos: position{line: 211, col: 36, offset: 6293},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2769, col: 14, offset: 88103},
+																pos: position{line: 2769, col: 14, offset: 88147},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2769, col: 14, offset: 88103},
+																	pos: position{line: 2769, col: 14, offset: 88147},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2769, col: 14, offset: 88103},
+																		pos:        position{line: 2769, col: 14, offset: 88147},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4010,7 +4010,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 211, col: 76, offset: 6289},
+														pos:        position{line: 211, col: 76, offset: 6333},
 														val:        "[]",
 														ignoreCase: false,
 														want:       "\"[]\"",
@@ -4019,10 +4019,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 203, col: 74, offset: 5952},
+											pos: position{line: 203, col: 74, offset: 5996},
 											run: (*parser).callonIncludedFileLine24,
 											expr: &anyMatcher{
-												line: 203, col: 74, offset: 5952,
+												line: 203, col: 74, offset: 5996,
 											},
 										},
 									},
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -4073,81 +4073,81 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentFragment",
-			pos:  position{line: 227, col: 1, offset: 6775},
+			pos:  position{line: 227, col: 1, offset: 6819},
 			expr: &actionExpr{
-				pos: position{line: 228, col: 5, offset: 6799},
+				pos: position{line: 228, col: 5, offset: 6843},
 				run: (*parser).callonDocumentFragment1,
 				expr: &seqExpr{
-					pos: position{line: 228, col: 5, offset: 6799},
+					pos: position{line: 228, col: 5, offset: 6843},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 229, col: 5, offset: 6810},
+							pos:   position{line: 229, col: 5, offset: 6854},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 229, col: 16, offset: 6821},
+								pos: position{line: 229, col: 16, offset: 6865},
 								expr: &ruleRefExpr{
-									pos:  position{line: 229, col: 17, offset: 6822},
+									pos:  position{line: 229, col: 17, offset: 6866},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&stateCodeExpr{
-							pos: position{line: 230, col: 5, offset: 6845},
+							pos: position{line: 230, col: 5, offset: 6889},
 							run: (*parser).callonDocumentFragment8,
 						},
 						&labeledExpr{
-							pos:   position{line: 236, col: 5, offset: 6999},
+							pos:   position{line: 236, col: 5, offset: 7043},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 236, col: 13, offset: 7007},
+								pos: position{line: 236, col: 13, offset: 7051},
 								expr: &choiceExpr{
-									pos: position{line: 237, col: 9, offset: 7017},
+									pos: position{line: 237, col: 9, offset: 7061},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 237, col: 9, offset: 7017},
+											pos:  position{line: 237, col: 9, offset: 7061},
 											name: "ImageBlock",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 238, col: 11, offset: 7078},
+											pos:  position{line: 238, col: 11, offset: 7122},
 											name: "UserMacroBlock",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 239, col: 11, offset: 7143},
+											pos:  position{line: 239, col: 11, offset: 7187},
 											name: "ShortcutParagraph",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 240, col: 11, offset: 7171},
+											pos:  position{line: 240, col: 11, offset: 7215},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10954},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 360, col: 19, offset: 10954},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 360, col: 19, offset: 10954},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 360, col: 24, offset: 10959},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															run: (*parser).callonDocumentFragment20,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9780},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4155,9 +4155,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9791},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4170,18 +4170,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 360, col: 45, offset: 10980},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 360, col: 49, offset: 10984},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -4231,28 +4231,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11075},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 362, col: 9, offset: 11075},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 362, col: 9, offset: 11075},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 362, col: 13, offset: 11079},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															run: (*parser).callonDocumentFragment41,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9780},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4260,9 +4260,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9791},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4275,18 +4275,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 362, col: 34, offset: 11100},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 362, col: 39, offset: 11105},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 677, col: 14, offset: 21533},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21489},
+												pos: position{line: 677, col: 14, offset: 21533},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2892, col: 11, offset: 91268},
+														pos: position{line: 2892, col: 11, offset: 91312},
 														expr: &anyMatcher{
-															line: 2892, col: 13, offset: 91270,
+															line: 2892, col: 13, offset: 91314,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21496},
+														pos: position{line: 677, col: 21, offset: 21540},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -4403,44 +4403,44 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 243, col: 11, offset: 7247},
+											pos:  position{line: 243, col: 11, offset: 7291},
 											name: "DocumentHeader",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 244, col: 11, offset: 7273},
+											pos:  position{line: 244, col: 11, offset: 7317},
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26368},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 820, col: 5, offset: 26368},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23628},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23628},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23628},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23639},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23639},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23639},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23646},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23646},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4451,12 +4451,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23730},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4465,28 +4465,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4495,9 +4495,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -4506,46 +4506,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 821, col: 5, offset: 26399},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 831, col: 5, offset: 26685},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26686},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 831, col: 6, offset: 26686},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 831, col: 6, offset: 26686},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 828, col: 29, offset: 26628},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23628},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 740, col: 5, offset: 23628},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 740, col: 5, offset: 23628},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23639},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 740, col: 16, offset: 23639},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 740, col: 16, offset: 23639},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 740, col: 23, offset: 23646},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 740, col: 23, offset: 23646},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4556,12 +4556,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 742, col: 8, offset: 23730},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4570,28 +4570,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4600,9 +4600,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -4611,39 +4611,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 832, col: 5, offset: 26716},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -4700,35 +4700,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 822, col: 5, offset: 26433},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 828, col: 29, offset: 26628},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23628},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 740, col: 5, offset: 23628},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
+																				pos:   position{line: 740, col: 5, offset: 23628},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23639},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 16, offset: 23639},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
+																								pos:        position{line: 740, col: 16, offset: 23639},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
+																								pos: position{line: 740, col: 23, offset: 23646},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
+																									pos:        position{line: 740, col: 23, offset: 23646},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4739,12 +4739,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
+																				pos: position{line: 742, col: 8, offset: 23730},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4753,28 +4753,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91332},
+																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91105},
+																						pos: position{line: 2884, col: 12, offset: 91149},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91106},
+																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91106},
+																									pos:        position{line: 2884, col: 13, offset: 91150},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91113},
+																									pos:        position{line: 2884, col: 20, offset: 91157},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91122},
+																									pos:        position{line: 2884, col: 29, offset: 91166},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4783,9 +4783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -4794,9 +4794,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -4806,39 +4806,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 840, col: 5, offset: 26869},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26825},
+												pos: position{line: 840, col: 5, offset: 26869},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26825},
+														pos:   position{line: 840, col: 5, offset: 26869},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 747, col: 5, offset: 23876},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 747, col: 5, offset: 23876},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23832},
+																		pos:   position{line: 747, col: 5, offset: 23876},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 747, col: 16, offset: 23887},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 747, col: 16, offset: 23887},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23843},
+																						pos:        position{line: 747, col: 16, offset: 23887},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23850},
+																						pos: position{line: 747, col: 23, offset: 23894},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23850},
+																							pos:        position{line: 747, col: 23, offset: 23894},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,12 +4849,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23934},
+																		pos: position{line: 749, col: 8, offset: 23978},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4863,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4893,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -4905,56 +4905,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26864},
+														pos: position{line: 841, col: 5, offset: 26908},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26956},
+														pos:   position{line: 844, col: 5, offset: 27000},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27353},
+															pos: position{line: 859, col: 4, offset: 27397},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 859, col: 5, offset: 27398},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27354},
+																	pos: position{line: 859, col: 5, offset: 27398},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27354},
+																			pos: position{line: 859, col: 5, offset: 27398},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27196},
+																				pos: position{line: 852, col: 5, offset: 27240},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27196},
+																						pos: position{line: 852, col: 5, offset: 27240},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27196},
+																								pos:   position{line: 852, col: 5, offset: 27240},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23876},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23832},
+																										pos: position{line: 747, col: 5, offset: 23876},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23832},
+																												pos:   position{line: 747, col: 5, offset: 23876},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23887},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23843},
+																														pos: position{line: 747, col: 16, offset: 23887},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23843},
+																																pos:        position{line: 747, col: 16, offset: 23887},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23850},
+																																pos: position{line: 747, col: 23, offset: 23894},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23850},
+																																	pos:        position{line: 747, col: 23, offset: 23894},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,12 +4965,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23934},
+																												pos: position{line: 749, col: 8, offset: 23978},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +4979,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5009,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -5021,45 +5021,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27227},
+																								pos: position{line: 853, col: 5, offset: 27271},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27384},
+																			pos:   position{line: 860, col: 5, offset: 27428},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5069,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5099,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -5116,44 +5116,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26990},
+														pos:   position{line: 845, col: 5, offset: 27034},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 26994},
+															pos: position{line: 845, col: 9, offset: 27038},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27196},
+																pos: position{line: 852, col: 5, offset: 27240},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27196},
+																		pos: position{line: 852, col: 5, offset: 27240},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27196},
+																				pos:   position{line: 852, col: 5, offset: 27240},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23876},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 747, col: 5, offset: 23876},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 747, col: 5, offset: 23876},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23887},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 747, col: 16, offset: 23887},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 747, col: 16, offset: 23887},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 747, col: 23, offset: 23894},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 747, col: 23, offset: 23894},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,12 +5164,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 749, col: 8, offset: 23978},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5178,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5208,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -5220,15 +5220,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27227},
+																				pos: position{line: 853, col: 5, offset: 27271},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -5239,36 +5239,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 952, col: 5, offset: 29720},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29676},
+												pos: position{line: 952, col: 5, offset: 29720},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29676},
+														pos:   position{line: 952, col: 5, offset: 29720},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 760, col: 26, offset: 24364},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 760, col: 26, offset: 24364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24320},
+																		pos:        position{line: 760, col: 26, offset: 24364},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24326},
+																		pos:   position{line: 760, col: 32, offset: 24370},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24456},
+																			pos: position{line: 764, col: 13, offset: 24500},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24457},
+																				pos: position{line: 764, col: 14, offset: 24501},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24457},
+																					pos:        position{line: 764, col: 14, offset: 24501},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,12 +5278,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24346},
+																		pos: position{line: 760, col: 52, offset: 24390},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5292,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5322,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -5334,34 +5334,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29722},
+														pos:   position{line: 953, col: 5, offset: 29766},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30195},
+															pos: position{line: 966, col: 5, offset: 30239},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 966, col: 6, offset: 30240},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30196},
+																	pos: position{line: 966, col: 6, offset: 30240},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30196},
+																			pos: position{line: 966, col: 6, offset: 30240},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30143},
+																				pos: position{line: 963, col: 34, offset: 30187},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30143},
+																						pos:        position{line: 963, col: 34, offset: 30187},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30149},
+																						pos: position{line: 963, col: 40, offset: 30193},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5370,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5400,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -5411,30 +5411,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30231},
+																			pos:   position{line: 967, col: 5, offset: 30275},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -5491,23 +5491,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29761},
+														pos: position{line: 954, col: 5, offset: 29805},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30143},
+															pos: position{line: 963, col: 34, offset: 30187},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30143},
+																	pos:        position{line: 963, col: 34, offset: 30187},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30149},
+																	pos: position{line: 963, col: 40, offset: 30193},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -5560,39 +5560,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 868, col: 5, offset: 27581},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27537},
+												pos: position{line: 868, col: 5, offset: 27581},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27537},
+														pos:   position{line: 868, col: 5, offset: 27581},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 754, col: 5, offset: 24123},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 754, col: 5, offset: 24123},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24079},
+																		pos:   position{line: 754, col: 5, offset: 24123},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 754, col: 16, offset: 24134},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 754, col: 16, offset: 24134},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24090},
+																						pos:        position{line: 754, col: 16, offset: 24134},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24096},
+																						pos: position{line: 754, col: 22, offset: 24140},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24096},
+																							pos:        position{line: 754, col: 22, offset: 24140},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,12 +5603,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24180},
+																		pos: position{line: 756, col: 8, offset: 24224},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -5659,56 +5659,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27575},
+														pos: position{line: 869, col: 5, offset: 27619},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27667},
+														pos:   position{line: 872, col: 5, offset: 27711},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28057},
+															pos: position{line: 887, col: 5, offset: 28101},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 887, col: 6, offset: 28102},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28058},
+																	pos: position{line: 887, col: 6, offset: 28102},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28058},
+																			pos: position{line: 887, col: 6, offset: 28102},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27901},
+																				pos: position{line: 880, col: 5, offset: 27945},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27901},
+																						pos: position{line: 880, col: 5, offset: 27945},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27901},
+																								pos:   position{line: 880, col: 5, offset: 27945},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24123},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24079},
+																										pos: position{line: 754, col: 5, offset: 24123},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24079},
+																												pos:   position{line: 754, col: 5, offset: 24123},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24134},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24090},
+																														pos: position{line: 754, col: 16, offset: 24134},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24090},
+																																pos:        position{line: 754, col: 16, offset: 24134},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24096},
+																																pos: position{line: 754, col: 22, offset: 24140},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24096},
+																																	pos:        position{line: 754, col: 22, offset: 24140},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,12 +5719,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24180},
+																												pos: position{line: 756, col: 8, offset: 24224},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5733,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5763,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -5775,45 +5775,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27931},
+																								pos: position{line: 881, col: 5, offset: 27975},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28087},
+																			pos:   position{line: 888, col: 5, offset: 28131},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -5870,44 +5870,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27700},
+														pos:   position{line: 873, col: 5, offset: 27744},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27704},
+															pos: position{line: 873, col: 9, offset: 27748},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27901},
+																pos: position{line: 880, col: 5, offset: 27945},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27901},
+																		pos: position{line: 880, col: 5, offset: 27945},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27901},
+																				pos:   position{line: 880, col: 5, offset: 27945},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24123},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 754, col: 5, offset: 24123},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 754, col: 5, offset: 24123},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24134},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 754, col: 16, offset: 24134},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 754, col: 16, offset: 24134},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 754, col: 22, offset: 24140},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 754, col: 22, offset: 24140},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,12 +5918,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 756, col: 8, offset: 24224},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5932,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5962,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -5974,15 +5974,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27931},
+																				pos: position{line: 881, col: 5, offset: 27975},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -5993,39 +5993,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 896, col: 5, offset: 28286},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28242},
+												pos: position{line: 896, col: 5, offset: 28286},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28242},
+														pos:   position{line: 896, col: 5, offset: 28286},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 769, col: 5, offset: 24660},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 769, col: 5, offset: 24660},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24616},
+																		pos:   position{line: 769, col: 5, offset: 24660},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 769, col: 16, offset: 24671},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 769, col: 16, offset: 24671},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24627},
+																						pos:        position{line: 769, col: 16, offset: 24671},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24634},
+																						pos: position{line: 769, col: 23, offset: 24678},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24634},
+																							pos:        position{line: 769, col: 23, offset: 24678},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,12 +6036,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24718},
+																		pos: position{line: 771, col: 8, offset: 24762},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6050,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6080,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -6092,56 +6092,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28281},
+														pos: position{line: 897, col: 5, offset: 28325},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28373},
+														pos:   position{line: 900, col: 5, offset: 28417},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28771},
+															pos: position{line: 915, col: 5, offset: 28815},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 915, col: 6, offset: 28816},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28772},
+																	pos: position{line: 915, col: 6, offset: 28816},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28772},
+																			pos: position{line: 915, col: 6, offset: 28816},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28613},
+																				pos: position{line: 908, col: 5, offset: 28657},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28613},
+																						pos: position{line: 908, col: 5, offset: 28657},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28613},
+																								pos:   position{line: 908, col: 5, offset: 28657},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24660},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24616},
+																										pos: position{line: 769, col: 5, offset: 24660},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24616},
+																												pos:   position{line: 769, col: 5, offset: 24660},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24671},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24627},
+																														pos: position{line: 769, col: 16, offset: 24671},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24627},
+																																pos:        position{line: 769, col: 16, offset: 24671},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24634},
+																																pos: position{line: 769, col: 23, offset: 24678},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24634},
+																																	pos:        position{line: 769, col: 23, offset: 24678},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,12 +6152,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24718},
+																												pos: position{line: 771, col: 8, offset: 24762},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6166,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6196,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -6208,45 +6208,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28644},
+																								pos: position{line: 909, col: 5, offset: 28688},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28802},
+																			pos:   position{line: 916, col: 5, offset: 28846},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -6303,44 +6303,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28407},
+														pos:   position{line: 901, col: 5, offset: 28451},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28411},
+															pos: position{line: 901, col: 9, offset: 28455},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28613},
+																pos: position{line: 908, col: 5, offset: 28657},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28613},
+																		pos: position{line: 908, col: 5, offset: 28657},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28613},
+																				pos:   position{line: 908, col: 5, offset: 28657},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24660},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 769, col: 5, offset: 24660},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 769, col: 5, offset: 24660},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24671},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 769, col: 16, offset: 24671},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 769, col: 16, offset: 24671},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 769, col: 23, offset: 24678},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 769, col: 23, offset: 24678},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,12 +6351,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 771, col: 8, offset: 24762},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6365,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6395,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -6407,15 +6407,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28644},
+																				pos: position{line: 909, col: 5, offset: 28688},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -6426,39 +6426,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 924, col: 5, offset: 29001},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28957},
+												pos: position{line: 924, col: 5, offset: 29001},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28957},
+														pos:   position{line: 924, col: 5, offset: 29001},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 783, col: 5, offset: 25136},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 783, col: 5, offset: 25136},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25092},
+																		pos:   position{line: 783, col: 5, offset: 25136},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 783, col: 16, offset: 25147},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 783, col: 16, offset: 25147},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25103},
+																						pos:        position{line: 783, col: 16, offset: 25147},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25110},
+																						pos: position{line: 783, col: 23, offset: 25154},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25110},
+																							pos:        position{line: 783, col: 23, offset: 25154},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,12 +6469,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25194},
+																		pos: position{line: 785, col: 8, offset: 25238},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6483,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6513,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -6525,56 +6525,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 28996},
+														pos: position{line: 925, col: 5, offset: 29040},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29088},
+														pos:   position{line: 928, col: 5, offset: 29132},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29486},
+															pos: position{line: 943, col: 5, offset: 29530},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 943, col: 6, offset: 29531},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29487},
+																	pos: position{line: 943, col: 6, offset: 29531},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29487},
+																			pos: position{line: 943, col: 6, offset: 29531},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29328},
+																				pos: position{line: 936, col: 5, offset: 29372},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29328},
+																						pos: position{line: 936, col: 5, offset: 29372},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29328},
+																								pos:   position{line: 936, col: 5, offset: 29372},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25136},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25092},
+																										pos: position{line: 783, col: 5, offset: 25136},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25092},
+																												pos:   position{line: 783, col: 5, offset: 25136},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25147},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25103},
+																														pos: position{line: 783, col: 16, offset: 25147},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25103},
+																																pos:        position{line: 783, col: 16, offset: 25147},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25110},
+																																pos: position{line: 783, col: 23, offset: 25154},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25110},
+																																	pos:        position{line: 783, col: 23, offset: 25154},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,12 +6585,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25194},
+																												pos: position{line: 785, col: 8, offset: 25238},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6599,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6629,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -6641,45 +6641,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29359},
+																								pos: position{line: 937, col: 5, offset: 29403},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29517},
+																			pos:   position{line: 944, col: 5, offset: 29561},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6689,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6719,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -6736,44 +6736,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29122},
+														pos:   position{line: 929, col: 5, offset: 29166},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29126},
+															pos: position{line: 929, col: 9, offset: 29170},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29328},
+																pos: position{line: 936, col: 5, offset: 29372},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29328},
+																		pos: position{line: 936, col: 5, offset: 29372},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29328},
+																				pos:   position{line: 936, col: 5, offset: 29372},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25136},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 783, col: 5, offset: 25136},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 783, col: 5, offset: 25136},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25147},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 783, col: 16, offset: 25147},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 783, col: 16, offset: 25147},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 783, col: 23, offset: 25154},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 783, col: 23, offset: 25154},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,12 +6784,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 785, col: 8, offset: 25238},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6798,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6828,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -6840,15 +6840,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29359},
+																				pos: position{line: 937, col: 5, offset: 29403},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -6859,41 +6859,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 975, col: 5, offset: 30444},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30400},
+												pos: position{line: 975, col: 5, offset: 30444},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30400},
+														pos:   position{line: 975, col: 5, offset: 30444},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 982, col: 5, offset: 30703},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30659},
+																pos: position{line: 982, col: 5, offset: 30703},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 982, col: 5, offset: 30703},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21533},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21533},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21496},
+																						pos: position{line: 677, col: 21, offset: 21540},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -6944,21 +6944,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30674},
+																		pos:        position{line: 983, col: 5, offset: 30718},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30684},
+																		pos:   position{line: 984, col: 5, offset: 30728},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2825, col: 14, offset: 89527},
+																			pos: position{line: 2825, col: 14, offset: 89571},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2825, col: 14, offset: 89527},
+																				pos: position{line: 2825, col: 14, offset: 89571},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 14, offset: 89527},
+																					pos:        position{line: 2825, col: 14, offset: 89571},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +6968,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +6998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -7010,40 +7010,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30437},
+														pos:   position{line: 976, col: 5, offset: 30481},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30448},
+															pos: position{line: 976, col: 16, offset: 30492},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30449},
+																pos: position{line: 976, col: 17, offset: 30493},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 982, col: 5, offset: 30703},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30659},
+																			pos: position{line: 982, col: 5, offset: 30703},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30659},
+																					pos: position{line: 982, col: 5, offset: 30703},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 677, col: 14, offset: 21533},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 677, col: 14, offset: 21533},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2892, col: 11, offset: 91268},
+																									pos: position{line: 2892, col: 11, offset: 91312},
 																									expr: &anyMatcher{
-																										line: 2892, col: 13, offset: 91270,
+																										line: 2892, col: 13, offset: 91314,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21496},
+																									pos: position{line: 677, col: 21, offset: 21540},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7052,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7082,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -7094,21 +7094,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30674},
+																					pos:        position{line: 983, col: 5, offset: 30718},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30684},
+																					pos:   position{line: 984, col: 5, offset: 30728},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2825, col: 14, offset: 89527},
+																						pos: position{line: 2825, col: 14, offset: 89571},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2825, col: 14, offset: 89527},
+																							pos: position{line: 2825, col: 14, offset: 89571},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2825, col: 14, offset: 89527},
+																								pos:        position{line: 2825, col: 14, offset: 89571},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7118,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7148,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -7159,21 +7159,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1786, col: 5, offset: 57699},
+																		pos: position{line: 1786, col: 5, offset: 57743},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1786, col: 5, offset: 57699},
+																			pos: position{line: 1786, col: 5, offset: 57743},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1786, col: 5, offset: 57699},
+																					pos:   position{line: 1786, col: 5, offset: 57743},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2825, col: 14, offset: 89527},
+																						pos: position{line: 2825, col: 14, offset: 89571},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2825, col: 14, offset: 89527},
+																							pos: position{line: 2825, col: 14, offset: 89571},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2825, col: 14, offset: 89527},
+																								pos:        position{line: 2825, col: 14, offset: 89571},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7183,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1787, col: 5, offset: 57723},
+																					pos: position{line: 1787, col: 5, offset: 57767},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7217,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -7235,28 +7235,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 997, col: 5, offset: 30993},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30949},
+												pos: position{line: 997, col: 5, offset: 30993},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30949},
+														pos:   position{line: 997, col: 5, offset: 30993},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24905},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 776, col: 5, offset: 24905},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 776, col: 5, offset: 24905},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 776, col: 16, offset: 24916},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 776, col: 16, offset: 24916},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,12 +7264,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 778, col: 8, offset: 24993},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7278,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7308,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -7320,35 +7320,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30985},
+														pos:   position{line: 998, col: 5, offset: 31029},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31253},
+															pos: position{line: 1008, col: 5, offset: 31297},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1008, col: 6, offset: 31298},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31254},
+																	pos: position{line: 1008, col: 6, offset: 31298},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31254},
+																			pos: position{line: 1008, col: 6, offset: 31298},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31202},
+																				pos: position{line: 1005, col: 26, offset: 31246},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 776, col: 5, offset: 24905},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24861},
+																							pos: position{line: 776, col: 5, offset: 24905},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24861},
+																									pos:   position{line: 776, col: 5, offset: 24905},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24872},
+																										pos: position{line: 776, col: 16, offset: 24916},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24872},
+																											pos:        position{line: 776, col: 16, offset: 24916},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,12 +7356,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24949},
+																									pos: position{line: 778, col: 8, offset: 24993},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7370,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7400,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -7411,39 +7411,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31281},
+																			pos:   position{line: 1009, col: 5, offset: 31325},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -7500,27 +7500,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31016},
+														pos:   position{line: 999, col: 5, offset: 31060},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31020},
+															pos: position{line: 999, col: 9, offset: 31064},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31202},
+																pos: position{line: 1005, col: 26, offset: 31246},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 776, col: 5, offset: 24905},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24861},
+																			pos: position{line: 776, col: 5, offset: 24905},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24861},
+																					pos:   position{line: 776, col: 5, offset: 24905},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24872},
+																						pos: position{line: 776, col: 16, offset: 24916},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24872},
+																							pos:        position{line: 776, col: 16, offset: 24916},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,12 +7528,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24949},
+																					pos: position{line: 778, col: 8, offset: 24993},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7542,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7572,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -7583,9 +7583,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -7596,39 +7596,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1017, col: 5, offset: 31488},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31444},
+												pos: position{line: 1017, col: 5, offset: 31488},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31444},
+														pos:   position{line: 1017, col: 5, offset: 31488},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 790, col: 5, offset: 25388},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 790, col: 5, offset: 25388},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25344},
+																		pos:   position{line: 790, col: 5, offset: 25388},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 790, col: 16, offset: 25399},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 790, col: 16, offset: 25399},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25355},
+																						pos:        position{line: 790, col: 16, offset: 25399},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25362},
+																						pos: position{line: 790, col: 23, offset: 25406},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25362},
+																							pos:        position{line: 790, col: 23, offset: 25406},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,12 +7639,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25446},
+																		pos: position{line: 792, col: 8, offset: 25490},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7653,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7683,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -7695,56 +7695,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31487},
+														pos: position{line: 1018, col: 5, offset: 31531},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31579},
+														pos:   position{line: 1021, col: 5, offset: 31623},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32009},
+															pos: position{line: 1036, col: 5, offset: 32053},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1036, col: 6, offset: 32054},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32010},
+																	pos: position{line: 1036, col: 6, offset: 32054},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32010},
+																			pos: position{line: 1036, col: 6, offset: 32054},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31843},
+																				pos: position{line: 1029, col: 5, offset: 31887},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31843},
+																						pos: position{line: 1029, col: 5, offset: 31887},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31843},
+																								pos:   position{line: 1029, col: 5, offset: 31887},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25388},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25344},
+																										pos: position{line: 790, col: 5, offset: 25388},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25344},
+																												pos:   position{line: 790, col: 5, offset: 25388},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25399},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25355},
+																														pos: position{line: 790, col: 16, offset: 25399},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25355},
+																																pos:        position{line: 790, col: 16, offset: 25399},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25362},
+																																pos: position{line: 790, col: 23, offset: 25406},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25362},
+																																	pos:        position{line: 790, col: 23, offset: 25406},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,12 +7755,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25446},
+																												pos: position{line: 792, col: 8, offset: 25490},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7769,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7799,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -7811,45 +7811,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31878},
+																								pos: position{line: 1030, col: 5, offset: 31922},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32044},
+																			pos:   position{line: 1037, col: 5, offset: 32088},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -7906,44 +7906,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31617},
+														pos:   position{line: 1022, col: 5, offset: 31661},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31621},
+															pos: position{line: 1022, col: 9, offset: 31665},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31843},
+																pos: position{line: 1029, col: 5, offset: 31887},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31843},
+																		pos: position{line: 1029, col: 5, offset: 31887},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31843},
+																				pos:   position{line: 1029, col: 5, offset: 31887},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25388},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 790, col: 5, offset: 25388},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 790, col: 5, offset: 25388},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25399},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 790, col: 16, offset: 25399},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 790, col: 16, offset: 25399},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 790, col: 23, offset: 25406},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 790, col: 23, offset: 25406},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,12 +7954,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 792, col: 8, offset: 25490},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +7968,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +7998,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -8010,15 +8010,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31878},
+																				pos: position{line: 1030, col: 5, offset: 31922},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -8029,39 +8029,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1045, col: 5, offset: 32239},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32195},
+												pos: position{line: 1045, col: 5, offset: 32239},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32195},
+														pos:   position{line: 1045, col: 5, offset: 32239},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 797, col: 5, offset: 25638},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 797, col: 5, offset: 25638},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25594},
+																		pos:   position{line: 797, col: 5, offset: 25638},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 797, col: 16, offset: 25649},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 797, col: 16, offset: 25649},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25605},
+																						pos:        position{line: 797, col: 16, offset: 25649},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25612},
+																						pos: position{line: 797, col: 23, offset: 25656},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25612},
+																							pos:        position{line: 797, col: 23, offset: 25656},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,12 +8072,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25696},
+																		pos: position{line: 799, col: 8, offset: 25740},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8086,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8116,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -8128,56 +8128,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32232},
+														pos: position{line: 1046, col: 5, offset: 32276},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32324},
+														pos:   position{line: 1049, col: 5, offset: 32368},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32705},
+															pos: position{line: 1064, col: 4, offset: 32749},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1064, col: 5, offset: 32750},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32706},
+																	pos: position{line: 1064, col: 5, offset: 32750},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32706},
+																			pos: position{line: 1064, col: 5, offset: 32750},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32552},
+																				pos: position{line: 1057, col: 5, offset: 32596},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32552},
+																						pos: position{line: 1057, col: 5, offset: 32596},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32552},
+																								pos:   position{line: 1057, col: 5, offset: 32596},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25638},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
+																										pos: position{line: 797, col: 5, offset: 25638},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25594},
+																												pos:   position{line: 797, col: 5, offset: 25638},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25649},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
+																														pos: position{line: 797, col: 16, offset: 25649},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25605},
+																																pos:        position{line: 797, col: 16, offset: 25649},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25612},
+																																pos: position{line: 797, col: 23, offset: 25656},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25612},
+																																	pos:        position{line: 797, col: 23, offset: 25656},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,12 +8188,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25696},
+																												pos: position{line: 799, col: 8, offset: 25740},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8202,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8232,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -8244,45 +8244,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32581},
+																								pos: position{line: 1058, col: 5, offset: 32625},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32734},
+																			pos:   position{line: 1065, col: 5, offset: 32778},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8292,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8322,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -8339,44 +8339,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32356},
+														pos:   position{line: 1050, col: 5, offset: 32400},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32360},
+															pos: position{line: 1050, col: 9, offset: 32404},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32552},
+																pos: position{line: 1057, col: 5, offset: 32596},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32552},
+																		pos: position{line: 1057, col: 5, offset: 32596},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32552},
+																				pos:   position{line: 1057, col: 5, offset: 32596},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25638},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 797, col: 5, offset: 25638},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 797, col: 5, offset: 25638},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25649},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 797, col: 16, offset: 25649},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 797, col: 16, offset: 25649},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 797, col: 23, offset: 25656},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 797, col: 23, offset: 25656},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,12 +8387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 799, col: 8, offset: 25740},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8401,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8431,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -8443,15 +8443,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32581},
+																				pos: position{line: 1058, col: 5, offset: 32625},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -8462,39 +8462,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1073, col: 5, offset: 32933},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32889},
+												pos: position{line: 1073, col: 5, offset: 32933},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32889},
+														pos:   position{line: 1073, col: 5, offset: 32933},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 804, col: 5, offset: 25884},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 804, col: 5, offset: 25884},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25840},
+																		pos:   position{line: 804, col: 5, offset: 25884},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 804, col: 16, offset: 25895},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 804, col: 16, offset: 25895},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25851},
+																						pos:        position{line: 804, col: 16, offset: 25895},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25858},
+																						pos: position{line: 804, col: 23, offset: 25902},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25858},
+																							pos:        position{line: 804, col: 23, offset: 25902},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,12 +8505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25942},
+																		pos: position{line: 806, col: 8, offset: 25986},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8519,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8549,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -8561,56 +8561,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32928},
+														pos: position{line: 1074, col: 5, offset: 32972},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33020},
+														pos:   position{line: 1077, col: 5, offset: 33064},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33417},
+															pos: position{line: 1092, col: 4, offset: 33461},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1092, col: 5, offset: 33462},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33418},
+																	pos: position{line: 1092, col: 5, offset: 33462},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33418},
+																			pos: position{line: 1092, col: 5, offset: 33462},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33260},
+																				pos: position{line: 1085, col: 5, offset: 33304},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33260},
+																						pos: position{line: 1085, col: 5, offset: 33304},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33260},
+																								pos:   position{line: 1085, col: 5, offset: 33304},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25884},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25840},
+																										pos: position{line: 804, col: 5, offset: 25884},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25840},
+																												pos:   position{line: 804, col: 5, offset: 25884},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25895},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25851},
+																														pos: position{line: 804, col: 16, offset: 25895},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25851},
+																																pos:        position{line: 804, col: 16, offset: 25895},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25858},
+																																pos: position{line: 804, col: 23, offset: 25902},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25858},
+																																	pos:        position{line: 804, col: 23, offset: 25902},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,12 +8621,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25942},
+																												pos: position{line: 806, col: 8, offset: 25986},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8635,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8665,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -8677,45 +8677,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33291},
+																								pos: position{line: 1086, col: 5, offset: 33335},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33448},
+																			pos:   position{line: 1093, col: 5, offset: 33492},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -8772,44 +8772,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33054},
+														pos:   position{line: 1078, col: 5, offset: 33098},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33058},
+															pos: position{line: 1078, col: 9, offset: 33102},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33260},
+																pos: position{line: 1085, col: 5, offset: 33304},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33260},
+																		pos: position{line: 1085, col: 5, offset: 33304},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33260},
+																				pos:   position{line: 1085, col: 5, offset: 33304},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25884},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 804, col: 5, offset: 25884},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 804, col: 5, offset: 25884},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25895},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 804, col: 16, offset: 25895},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 804, col: 16, offset: 25895},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 804, col: 23, offset: 25902},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 804, col: 23, offset: 25902},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,12 +8820,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 806, col: 8, offset: 25986},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8834,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8864,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -8876,15 +8876,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33291},
+																				pos: position{line: 1086, col: 5, offset: 33335},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -8895,52 +8895,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2720, col: 18, offset: 86524},
+											pos: position{line: 2720, col: 18, offset: 86568},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2720, col: 18, offset: 86524},
+												pos: position{line: 2720, col: 18, offset: 86568},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2721, col: 9, offset: 86534},
+														pos: position{line: 2721, col: 9, offset: 86578},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2721, col: 9, offset: 86534},
+																pos:        position{line: 2721, col: 9, offset: 86578},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2722, col: 11, offset: 86570},
+																pos:        position{line: 2722, col: 11, offset: 86614},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2722, col: 19, offset: 86578},
+																pos:        position{line: 2722, col: 19, offset: 86622},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2722, col: 29, offset: 86588},
+																pos:        position{line: 2722, col: 29, offset: 86632},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2722, col: 37, offset: 86596},
+																pos:        position{line: 2722, col: 37, offset: 86640},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2722, col: 47, offset: 86606},
+																pos:        position{line: 2722, col: 47, offset: 86650},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2722, col: 55, offset: 86614},
+																pos:        position{line: 2722, col: 55, offset: 86658},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8948,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2723, col: 11, offset: 86672},
+														pos: position{line: 2723, col: 11, offset: 86716},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +8962,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +8992,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9030,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -9041,28 +9041,28 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 247, col: 11, offset: 7378},
+											pos:  position{line: 247, col: 11, offset: 7422},
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 5, offset: 83460},
+											pos: position{line: 2611, col: 5, offset: 83504},
 											run: (*parser).callonDocumentFragment1106,
 											expr: &seqExpr{
-												pos: position{line: 2611, col: 5, offset: 83460},
+												pos: position{line: 2611, col: 5, offset: 83504},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2617, col: 19, offset: 83617},
+														pos:        position{line: 2617, col: 19, offset: 83661},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2617, col: 26, offset: 83624},
+														pos: position{line: 2617, col: 26, offset: 83668},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentFragment1110,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9071,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment1113,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9101,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2612, col: 5, offset: 83484},
+														pos:   position{line: 2612, col: 5, offset: 83528},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2612, col: 11, offset: 83490},
+															pos: position{line: 2612, col: 11, offset: 83534},
 															expr: &choiceExpr{
-																pos: position{line: 2612, col: 12, offset: 83491},
+																pos: position{line: 2612, col: 12, offset: 83535},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21533},
 																		run: (*parser).callonDocumentFragment1123,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2892, col: 11, offset: 91268},
+																					pos: position{line: 2892, col: 11, offset: 91312},
 																					expr: &anyMatcher{
-																						line: 2892, col: 13, offset: 91270,
+																						line: 2892, col: 13, offset: 91314,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonDocumentFragment1128,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9143,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonDocumentFragment1131,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9173,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -9184,32 +9184,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2624, col: 5, offset: 83736},
+																		pos: position{line: 2624, col: 5, offset: 83780},
 																		run: (*parser).callonDocumentFragment1138,
 																		expr: &seqExpr{
-																			pos: position{line: 2624, col: 5, offset: 83736},
+																			pos: position{line: 2624, col: 5, offset: 83780},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2624, col: 5, offset: 83736},
+																					pos: position{line: 2624, col: 5, offset: 83780},
 																					expr: &choiceExpr{
-																						pos: position{line: 2621, col: 22, offset: 83697},
+																						pos: position{line: 2621, col: 22, offset: 83741},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2617, col: 19, offset: 83617},
+																								pos: position{line: 2617, col: 19, offset: 83661},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2617, col: 19, offset: 83617},
+																										pos:        position{line: 2617, col: 19, offset: 83661},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2617, col: 26, offset: 83624},
+																										pos: position{line: 2617, col: 26, offset: 83668},
 																										expr: &actionExpr{
-																											pos: position{line: 2875, col: 10, offset: 90934},
+																											pos: position{line: 2875, col: 10, offset: 90978},
 																											run: (*parser).callonDocumentFragment1145,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2875, col: 10, offset: 90934},
+																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9218,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2897, col: 8, offset: 91332},
+																										pos: position{line: 2897, col: 8, offset: 91376},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2884, col: 12, offset: 91105},
+																												pos: position{line: 2884, col: 12, offset: 91149},
 																												run: (*parser).callonDocumentFragment1148,
 																												expr: &choiceExpr{
-																													pos: position{line: 2884, col: 13, offset: 91106},
+																													pos: position{line: 2884, col: 13, offset: 91150},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2884, col: 13, offset: 91106},
+																															pos:        position{line: 2884, col: 13, offset: 91150},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2884, col: 20, offset: 91113},
+																															pos:        position{line: 2884, col: 20, offset: 91157},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2884, col: 29, offset: 91122},
+																															pos:        position{line: 2884, col: 29, offset: 91166},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9248,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2894, col: 8, offset: 91282},
+																												pos: position{line: 2894, col: 8, offset: 91326},
 																												expr: &anyMatcher{
-																													line: 2894, col: 9, offset: 91283,
+																													line: 2894, col: 9, offset: 91327,
 																												},
 																											},
 																										},
@@ -9258,59 +9258,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2625, col: 5, offset: 83759},
+																					pos:   position{line: 2625, col: 5, offset: 83803},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2626, col: 9, offset: 83777},
+																						pos: position{line: 2626, col: 9, offset: 83821},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2626, col: 10, offset: 83778},
+																								pos: position{line: 2626, col: 10, offset: 83822},
 																								run: (*parser).callonDocumentFragment1159,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2626, col: 10, offset: 83778},
+																									pos:   position{line: 2626, col: 10, offset: 83822},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2626, col: 17, offset: 83785},
+																										pos: position{line: 2626, col: 17, offset: 83829},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2634, col: 21, offset: 83981},
+																												pos: position{line: 2634, col: 21, offset: 84025},
 																												run: (*parser).callonDocumentFragment1162,
 																												expr: &seqExpr{
-																													pos: position{line: 2634, col: 21, offset: 83981},
+																													pos: position{line: 2634, col: 21, offset: 84025},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2634, col: 21, offset: 83981},
+																															pos:   position{line: 2634, col: 21, offset: 84025},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2634, col: 27, offset: 83987},
+																																pos: position{line: 2634, col: 27, offset: 84031},
 																																expr: &actionExpr{
-																																	pos: position{line: 2639, col: 5, offset: 84062},
+																																	pos: position{line: 2639, col: 5, offset: 84106},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2639, col: 5, offset: 84062},
+																																		pos: position{line: 2639, col: 5, offset: 84106},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2639, col: 5, offset: 84062},
+																																				pos:        position{line: 2639, col: 5, offset: 84106},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2639, col: 9, offset: 84066},
+																																				pos: position{line: 2639, col: 9, offset: 84110},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2875, col: 10, offset: 90934},
+																																					pos: position{line: 2875, col: 10, offset: 90978},
 																																					run: (*parser).callonDocumentFragment1170,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2875, col: 10, offset: 90934},
+																																						pos:        position{line: 2875, col: 10, offset: 90978},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2639, col: 16, offset: 84073},
+																																				pos:   position{line: 2639, col: 16, offset: 84117},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2645, col: 5, offset: 84273},
+																																					pos: position{line: 2645, col: 5, offset: 84317},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2645, col: 5, offset: 84273},
+																																						pos:   position{line: 2645, col: 5, offset: 84317},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 14, offset: 84282},
+																																							pos: position{line: 2645, col: 14, offset: 84326},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 14, offset: 84282},
+																																								pos: position{line: 2645, col: 14, offset: 84326},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 14, offset: 84282},
+																																									pos:        position{line: 2645, col: 14, offset: 84326},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9350,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2897, col: 8, offset: 91332},
+																															pos: position{line: 2897, col: 8, offset: 91376},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2884, col: 12, offset: 91105},
+																																	pos: position{line: 2884, col: 12, offset: 91149},
 																																	run: (*parser).callonDocumentFragment1179,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2884, col: 13, offset: 91106},
+																																		pos: position{line: 2884, col: 13, offset: 91150},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2884, col: 13, offset: 91106},
+																																				pos:        position{line: 2884, col: 13, offset: 91150},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2884, col: 20, offset: 91113},
+																																				pos:        position{line: 2884, col: 20, offset: 91157},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2884, col: 29, offset: 91122},
+																																				pos:        position{line: 2884, col: 29, offset: 91166},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9380,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2894, col: 8, offset: 91282},
+																																	pos: position{line: 2894, col: 8, offset: 91326},
 																																	expr: &anyMatcher{
-																																		line: 2894, col: 9, offset: 91283,
+																																		line: 2894, col: 9, offset: 91327,
 																																	},
 																																},
 																															},
@@ -9391,40 +9391,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2651, col: 24, offset: 84418},
+																												pos: position{line: 2651, col: 24, offset: 84462},
 																												run: (*parser).callonDocumentFragment1186,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2651, col: 24, offset: 84418},
+																													pos:   position{line: 2651, col: 24, offset: 84462},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2651, col: 30, offset: 84424},
+																														pos: position{line: 2651, col: 30, offset: 84468},
 																														expr: &actionExpr{
-																															pos: position{line: 2656, col: 5, offset: 84500},
+																															pos: position{line: 2656, col: 5, offset: 84544},
 																															run: (*parser).callonDocumentFragment1189,
 																															expr: &seqExpr{
-																																pos: position{line: 2656, col: 5, offset: 84500},
+																																pos: position{line: 2656, col: 5, offset: 84544},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2656, col: 5, offset: 84500},
+																																		pos: position{line: 2656, col: 5, offset: 84544},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2621, col: 22, offset: 83697},
+																																			pos: position{line: 2621, col: 22, offset: 83741},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2617, col: 19, offset: 83617},
+																																					pos: position{line: 2617, col: 19, offset: 83661},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2617, col: 19, offset: 83617},
+																																							pos:        position{line: 2617, col: 19, offset: 83661},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2617, col: 26, offset: 83624},
+																																							pos: position{line: 2617, col: 26, offset: 83668},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2875, col: 10, offset: 90934},
+																																								pos: position{line: 2875, col: 10, offset: 90978},
 																																								run: (*parser).callonDocumentFragment1196,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2875, col: 10, offset: 90934},
+																																									pos:        position{line: 2875, col: 10, offset: 90978},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9433,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2897, col: 8, offset: 91332},
+																																							pos: position{line: 2897, col: 8, offset: 91376},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2884, col: 12, offset: 91105},
+																																									pos: position{line: 2884, col: 12, offset: 91149},
 																																									run: (*parser).callonDocumentFragment1199,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2884, col: 13, offset: 91106},
+																																										pos: position{line: 2884, col: 13, offset: 91150},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 13, offset: 91106},
+																																												pos:        position{line: 2884, col: 13, offset: 91150},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 20, offset: 91113},
+																																												pos:        position{line: 2884, col: 20, offset: 91157},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 29, offset: 91122},
+																																												pos:        position{line: 2884, col: 29, offset: 91166},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9463,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2894, col: 8, offset: 91282},
+																																									pos: position{line: 2894, col: 8, offset: 91326},
 																																									expr: &anyMatcher{
-																																										line: 2894, col: 9, offset: 91283,
+																																										line: 2894, col: 9, offset: 91327,
 																																									},
 																																								},
 																																							},
@@ -9473,35 +9473,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2894, col: 8, offset: 91282},
+																																					pos: position{line: 2894, col: 8, offset: 91326},
 																																					expr: &anyMatcher{
-																																						line: 2894, col: 9, offset: 91283,
+																																						line: 2894, col: 9, offset: 91327,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84523},
+																																		pos: position{line: 2657, col: 5, offset: 84567},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 677, col: 14, offset: 21533},
 																																			run: (*parser).callonDocumentFragment1209,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21489},
+																																				pos: position{line: 677, col: 14, offset: 21533},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2892, col: 11, offset: 91268},
+																																						pos: position{line: 2892, col: 11, offset: 91312},
 																																						expr: &anyMatcher{
-																																							line: 2892, col: 13, offset: 91270,
+																																							line: 2892, col: 13, offset: 91314,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21496},
+																																						pos: position{line: 677, col: 21, offset: 21540},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2875, col: 10, offset: 90934},
+																																							pos: position{line: 2875, col: 10, offset: 90978},
 																																							run: (*parser).callonDocumentFragment1214,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2875, col: 10, offset: 90934},
+																																								pos:        position{line: 2875, col: 10, offset: 90978},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9510,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2897, col: 8, offset: 91332},
+																																						pos: position{line: 2897, col: 8, offset: 91376},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2884, col: 12, offset: 91105},
+																																								pos: position{line: 2884, col: 12, offset: 91149},
 																																								run: (*parser).callonDocumentFragment1217,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2884, col: 13, offset: 91106},
+																																									pos: position{line: 2884, col: 13, offset: 91150},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 13, offset: 91106},
+																																											pos:        position{line: 2884, col: 13, offset: 91150},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 20, offset: 91113},
+																																											pos:        position{line: 2884, col: 20, offset: 91157},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 29, offset: 91122},
+																																											pos:        position{line: 2884, col: 29, offset: 91166},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9540,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2894, col: 8, offset: 91282},
+																																								pos: position{line: 2894, col: 8, offset: 91326},
 																																								expr: &anyMatcher{
-																																									line: 2894, col: 9, offset: 91283,
+																																									line: 2894, col: 9, offset: 91327,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9552,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2658, col: 5, offset: 84538},
+																																		pos:   position{line: 2658, col: 5, offset: 84582},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2658, col: 12, offset: 84545},
+																																			pos: position{line: 2658, col: 12, offset: 84589},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2675, col: 20, offset: 85009},
+																																				pos: position{line: 2675, col: 20, offset: 85053},
 																																				run: (*parser).callonDocumentFragment1226,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2675, col: 20, offset: 85009},
+																																					pos: position{line: 2675, col: 20, offset: 85053},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2675, col: 20, offset: 85009},
+																																						pos:        position{line: 2675, col: 20, offset: 85053},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9573,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2658, col: 31, offset: 84564},
+																																		pos:        position{line: 2658, col: 31, offset: 84608},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2658, col: 35, offset: 84568},
+																																		pos: position{line: 2658, col: 35, offset: 84612},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2875, col: 10, offset: 90934},
+																																			pos: position{line: 2875, col: 10, offset: 90978},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2875, col: 10, offset: 90934},
+																																				pos:        position{line: 2875, col: 10, offset: 90978},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9593,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2658, col: 42, offset: 84575},
+																																		pos: position{line: 2658, col: 42, offset: 84619},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2884, col: 12, offset: 91105},
+																																			pos: position{line: 2884, col: 12, offset: 91149},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2884, col: 13, offset: 91106},
+																																				pos: position{line: 2884, col: 13, offset: 91150},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2884, col: 13, offset: 91106},
+																																						pos:        position{line: 2884, col: 13, offset: 91150},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2884, col: 20, offset: 91113},
+																																						pos:        position{line: 2884, col: 20, offset: 91157},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2884, col: 29, offset: 91122},
+																																						pos:        position{line: 2884, col: 29, offset: 91166},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9623,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2658, col: 51, offset: 84584},
+																																		pos:   position{line: 2658, col: 51, offset: 84628},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2664, col: 5, offset: 84743},
+																																			pos: position{line: 2664, col: 5, offset: 84787},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2665, col: 9, offset: 84753},
+																																				pos: position{line: 2665, col: 9, offset: 84797},
 																																				run: (*parser).callonDocumentFragment1241,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2665, col: 9, offset: 84753},
+																																					pos: position{line: 2665, col: 9, offset: 84797},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84753},
+																																							pos: position{line: 2665, col: 9, offset: 84797},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2621, col: 22, offset: 83697},
+																																								pos: position{line: 2621, col: 22, offset: 83741},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2617, col: 19, offset: 83617},
+																																										pos: position{line: 2617, col: 19, offset: 83661},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2617, col: 19, offset: 83617},
+																																												pos:        position{line: 2617, col: 19, offset: 83661},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2617, col: 26, offset: 83624},
+																																												pos: position{line: 2617, col: 26, offset: 83668},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2875, col: 10, offset: 90934},
+																																													pos: position{line: 2875, col: 10, offset: 90978},
 																																													run: (*parser).callonDocumentFragment1248,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2875, col: 10, offset: 90934},
+																																														pos:        position{line: 2875, col: 10, offset: 90978},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9662,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2897, col: 8, offset: 91332},
+																																												pos: position{line: 2897, col: 8, offset: 91376},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2884, col: 12, offset: 91105},
+																																														pos: position{line: 2884, col: 12, offset: 91149},
 																																														run: (*parser).callonDocumentFragment1251,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2884, col: 13, offset: 91106},
+																																															pos: position{line: 2884, col: 13, offset: 91150},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9692,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2894, col: 8, offset: 91282},
+																																														pos: position{line: 2894, col: 8, offset: 91326},
 																																														expr: &anyMatcher{
-																																															line: 2894, col: 9, offset: 91283,
+																																															line: 2894, col: 9, offset: 91327,
 																																														},
 																																													},
 																																												},
@@ -9702,35 +9702,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2894, col: 8, offset: 91282},
+																																										pos: position{line: 2894, col: 8, offset: 91326},
 																																										expr: &anyMatcher{
-																																											line: 2894, col: 9, offset: 91283,
+																																											line: 2894, col: 9, offset: 91327,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84780},
+																																							pos: position{line: 2666, col: 9, offset: 84824},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 677, col: 14, offset: 21533},
 																																								run: (*parser).callonDocumentFragment1261,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21489},
+																																									pos: position{line: 677, col: 14, offset: 21533},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2892, col: 11, offset: 91268},
+																																											pos: position{line: 2892, col: 11, offset: 91312},
 																																											expr: &anyMatcher{
-																																												line: 2892, col: 13, offset: 91270,
+																																												line: 2892, col: 13, offset: 91314,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21496},
+																																											pos: position{line: 677, col: 21, offset: 21540},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2875, col: 10, offset: 90934},
+																																												pos: position{line: 2875, col: 10, offset: 90978},
 																																												run: (*parser).callonDocumentFragment1266,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2875, col: 10, offset: 90934},
+																																													pos:        position{line: 2875, col: 10, offset: 90978},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9739,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2897, col: 8, offset: 91332},
+																																											pos: position{line: 2897, col: 8, offset: 91376},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2884, col: 12, offset: 91105},
+																																													pos: position{line: 2884, col: 12, offset: 91149},
 																																													run: (*parser).callonDocumentFragment1269,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2884, col: 13, offset: 91106},
+																																														pos: position{line: 2884, col: 13, offset: 91150},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9769,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2894, col: 8, offset: 91282},
+																																													pos: position{line: 2894, col: 8, offset: 91326},
 																																													expr: &anyMatcher{
-																																														line: 2894, col: 9, offset: 91283,
+																																														line: 2894, col: 9, offset: 91327,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9781,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84799},
+																																							pos: position{line: 2667, col: 9, offset: 84843},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2667, col: 11, offset: 84801},
+																																								pos: position{line: 2667, col: 11, offset: 84845},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2667, col: 11, offset: 84801},
+																																										pos:   position{line: 2667, col: 11, offset: 84845},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2667, col: 18, offset: 84808},
+																																											pos: position{line: 2667, col: 18, offset: 84852},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2675, col: 20, offset: 85009},
+																																												pos: position{line: 2675, col: 20, offset: 85053},
 																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2675, col: 20, offset: 85009},
+																																													pos: position{line: 2675, col: 20, offset: 85053},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2675, col: 20, offset: 85009},
+																																														pos:        position{line: 2675, col: 20, offset: 85053},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9807,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2667, col: 37, offset: 84827},
+																																										pos:        position{line: 2667, col: 37, offset: 84871},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9816,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2668, col: 9, offset: 84840},
+																																							pos:   position{line: 2668, col: 9, offset: 84884},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2668, col: 18, offset: 84849},
+																																								pos: position{line: 2668, col: 18, offset: 84893},
 																																								run: (*parser).callonDocumentFragment1285,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2668, col: 18, offset: 84849},
+																																									pos: position{line: 2668, col: 18, offset: 84893},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2668, col: 18, offset: 84849},
+																																										pos:        position{line: 2668, col: 18, offset: 84893},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9834,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2670, col: 12, offset: 84911},
+																																							pos: position{line: 2670, col: 12, offset: 84955},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2897, col: 8, offset: 91332},
+																																								pos: position{line: 2897, col: 8, offset: 91376},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2884, col: 12, offset: 91105},
+																																										pos: position{line: 2884, col: 12, offset: 91149},
 																																										run: (*parser).callonDocumentFragment1290,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2884, col: 13, offset: 91106},
+																																											pos: position{line: 2884, col: 13, offset: 91150},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2884, col: 13, offset: 91106},
+																																													pos:        position{line: 2884, col: 13, offset: 91150},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2884, col: 20, offset: 91113},
+																																													pos:        position{line: 2884, col: 20, offset: 91157},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2884, col: 29, offset: 91122},
+																																													pos:        position{line: 2884, col: 29, offset: 91166},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9866,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2894, col: 8, offset: 91282},
+																																										pos: position{line: 2894, col: 8, offset: 91326},
 																																										expr: &anyMatcher{
-																																											line: 2894, col: 9, offset: 91283,
+																																											line: 2894, col: 9, offset: 91327,
 																																										},
 																																									},
 																																								},
@@ -9890,24 +9890,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 677, col: 14, offset: 21533},
 																								run: (*parser).callonDocumentFragment1297,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21489},
+																									pos: position{line: 677, col: 14, offset: 21533},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2892, col: 11, offset: 91268},
+																											pos: position{line: 2892, col: 11, offset: 91312},
 																											expr: &anyMatcher{
-																												line: 2892, col: 13, offset: 91270,
+																												line: 2892, col: 13, offset: 91314,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21496},
+																											pos: position{line: 677, col: 21, offset: 21540},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonDocumentFragment1302,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonDocumentFragment1305,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -9967,24 +9967,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2621, col: 22, offset: 83697},
+														pos: position{line: 2621, col: 22, offset: 83741},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2617, col: 19, offset: 83617},
+																pos: position{line: 2617, col: 19, offset: 83661},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2617, col: 19, offset: 83617},
+																		pos:        position{line: 2617, col: 19, offset: 83661},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2617, col: 26, offset: 83624},
+																		pos: position{line: 2617, col: 26, offset: 83668},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment1316,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +9993,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment1319,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10023,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -10033,9 +10033,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -10044,36 +10044,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2482, col: 22, offset: 79848},
+											pos: position{line: 2482, col: 22, offset: 79892},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2482, col: 22, offset: 79848},
+												pos: position{line: 2482, col: 22, offset: 79892},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2487, col: 31, offset: 80069},
+														pos:        position{line: 2487, col: 31, offset: 80113},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2487, col: 36, offset: 80074},
+														pos: position{line: 2487, col: 36, offset: 80118},
 														expr: &litMatcher{
-															pos:        position{line: 2487, col: 37, offset: 80075},
+															pos:        position{line: 2487, col: 37, offset: 80119},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2482, col: 49, offset: 79875},
+														pos:   position{line: 2482, col: 49, offset: 79919},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2821, col: 13, offset: 89460},
+															pos: position{line: 2821, col: 13, offset: 89504},
 															run: (*parser).callonDocumentFragment1334,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2821, col: 13, offset: 89460},
+																pos: position{line: 2821, col: 13, offset: 89504},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2821, col: 13, offset: 89460},
+																	pos:        position{line: 2821, col: 13, offset: 89504},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10083,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentFragment1338,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10113,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -10124,37 +10124,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37866},
+											pos: position{line: 1222, col: 5, offset: 37910},
 											run: (*parser).callonDocumentFragment1345,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37866},
+												pos: position{line: 1222, col: 5, offset: 37910},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37866},
+														pos: position{line: 1222, col: 5, offset: 37910},
 														run: (*parser).callonDocumentFragment1347,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37924},
+														pos:   position{line: 1225, col: 5, offset: 37968},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38019},
+															pos: position{line: 1230, col: 20, offset: 38063},
 															run: (*parser).callonDocumentFragment1349,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38019},
+																pos: position{line: 1230, col: 20, offset: 38063},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1234, col: 30, offset: 38235},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1234, col: 36, offset: 38241},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment1353,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment1356,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,46 +10193,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38044},
+																		pos:   position{line: 1230, col: 45, offset: 38088},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38052},
+																			pos: position{line: 1230, col: 53, offset: 38096},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38235},
+																				pos: position{line: 1236, col: 27, offset: 38279},
 																				run: (*parser).callonDocumentFragment1365,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38235},
+																					pos: position{line: 1236, col: 27, offset: 38279},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38236},
+																						pos: position{line: 1236, col: 28, offset: 38280},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38237},
+																							pos: position{line: 1236, col: 29, offset: 38281},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38237},
+																									pos: position{line: 1236, col: 29, offset: 38281},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38191},
+																										pos: position{line: 1234, col: 30, offset: 38235},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38191},
+																												pos:        position{line: 1234, col: 30, offset: 38235},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38197},
+																												pos: position{line: 1234, col: 36, offset: 38241},
 																												expr: &actionExpr{
-																													pos: position{line: 2875, col: 10, offset: 90934},
+																													pos: position{line: 2875, col: 10, offset: 90978},
 																													run: (*parser).callonDocumentFragment1373,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2875, col: 10, offset: 90934},
+																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10241,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2897, col: 8, offset: 91332},
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2884, col: 12, offset: 91105},
+																														pos: position{line: 2884, col: 12, offset: 91149},
 																														run: (*parser).callonDocumentFragment1376,
 																														expr: &choiceExpr{
-																															pos: position{line: 2884, col: 13, offset: 91106},
+																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 13, offset: 91106},
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 20, offset: 91113},
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2884, col: 29, offset: 91122},
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10271,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2894, col: 8, offset: 91282},
+																														pos: position{line: 2894, col: 8, offset: 91326},
 																														expr: &anyMatcher{
-																															line: 2894, col: 9, offset: 91283,
+																															line: 2894, col: 9, offset: 91327,
 																														},
 																													},
 																												},
@@ -10282,7 +10282,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38263,
+																									line: 1236, col: 55, offset: 38307,
 																								},
 																							},
 																						},
@@ -10292,18 +10292,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1234, col: 30, offset: 38235},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1234, col: 36, offset: 38241},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentFragment1389,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -10357,7 +10357,7 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 251, col: 11, offset: 7467},
+											pos:  position{line: 251, col: 11, offset: 7511},
 											name: "Paragraph",
 										},
 									},
@@ -10365,7 +10365,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 253, col: 5, offset: 7555},
+							pos: position{line: 253, col: 5, offset: 7599},
 							run: (*parser).callonDocumentFragment1397,
 						},
 					},
@@ -10374,47 +10374,47 @@ var g = &grammar{
 		},
 		{
 			name: "DelimitedBlockElements",
-			pos:  position{line: 276, col: 1, offset: 8257},
+			pos:  position{line: 276, col: 1, offset: 8301},
 			expr: &actionExpr{
-				pos: position{line: 277, col: 5, offset: 8288},
+				pos: position{line: 277, col: 5, offset: 8332},
 				run: (*parser).callonDelimitedBlockElements1,
 				expr: &seqExpr{
-					pos: position{line: 277, col: 5, offset: 8288},
+					pos: position{line: 277, col: 5, offset: 8332},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 277, col: 5, offset: 8288},
+							pos: position{line: 277, col: 5, offset: 8332},
 							run: (*parser).callonDelimitedBlockElements3,
 						},
 						&labeledExpr{
-							pos:   position{line: 281, col: 5, offset: 8369},
+							pos:   position{line: 281, col: 5, offset: 8413},
 							label: "elements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 281, col: 14, offset: 8378},
+								pos: position{line: 281, col: 14, offset: 8422},
 								expr: &choiceExpr{
-									pos: position{line: 282, col: 9, offset: 8388},
+									pos: position{line: 282, col: 9, offset: 8432},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 37016},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1198, col: 23, offset: 37016},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36984},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1198, col: 51, offset: 37044},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37049},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1198, col: 56, offset: 37049},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1198, col: 56, offset: 37049},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10424,7 +10424,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36984},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10433,7 +10433,7 @@ var g = &grammar{
 											},
 										},
 										&ruleRefExpr{
-											pos:  position{line: 283, col: 11, offset: 8450},
+											pos:  position{line: 283, col: 11, offset: 8494},
 											name: "DocumentFragment",
 										},
 									},
@@ -10441,9 +10441,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -10452,30 +10452,30 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclaration",
-			pos:  position{line: 302, col: 1, offset: 9153},
+			pos:  position{line: 302, col: 1, offset: 9197},
 			expr: &actionExpr{
-				pos: position{line: 303, col: 5, offset: 9182},
+				pos: position{line: 303, col: 5, offset: 9226},
 				run: (*parser).callonAttributeDeclaration1,
 				expr: &seqExpr{
-					pos: position{line: 303, col: 5, offset: 9182},
+					pos: position{line: 303, col: 5, offset: 9226},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 303, col: 5, offset: 9182},
+							pos:        position{line: 303, col: 5, offset: 9226},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 303, col: 9, offset: 9186},
+							pos:   position{line: 303, col: 9, offset: 9230},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 318, col: 18, offset: 9736},
+								pos: position{line: 318, col: 18, offset: 9780},
 								run: (*parser).callonAttributeDeclaration5,
 								expr: &seqExpr{
-									pos: position{line: 318, col: 18, offset: 9736},
+									pos: position{line: 318, col: 18, offset: 9780},
 									exprs: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 318, col: 18, offset: 9736},
+											pos:        position{line: 318, col: 18, offset: 9780},
 											val:        "[_\\pL\\pN]",
 											chars:      []rune{'_'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10483,9 +10483,9 @@ var g = &grammar{
 											inverted:   false,
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 318, col: 28, offset: 9746},
+											pos: position{line: 318, col: 28, offset: 9790},
 											expr: &charClassMatcher{
-												pos:        position{line: 318, col: 29, offset: 9747},
+												pos:        position{line: 318, col: 29, offset: 9791},
 												val:        "[-\\pL\\pN]",
 												chars:      []rune{'-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10498,29 +10498,29 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 303, col: 30, offset: 9207},
+							pos:        position{line: 303, col: 30, offset: 9251},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 304, col: 5, offset: 9216},
+							pos:   position{line: 304, col: 5, offset: 9260},
 							label: "value",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 304, col: 11, offset: 9222},
+								pos: position{line: 304, col: 11, offset: 9266},
 								expr: &actionExpr{
-									pos: position{line: 305, col: 9, offset: 9232},
+									pos: position{line: 305, col: 9, offset: 9276},
 									run: (*parser).callonAttributeDeclaration13,
 									expr: &seqExpr{
-										pos: position{line: 305, col: 9, offset: 9232},
+										pos: position{line: 305, col: 9, offset: 9276},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2879, col: 11, offset: 90995},
+												pos: position{line: 2879, col: 11, offset: 91039},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2879, col: 11, offset: 90995},
+													pos: position{line: 2879, col: 11, offset: 91039},
 													expr: &charClassMatcher{
-														pos:        position{line: 2879, col: 11, offset: 90995},
+														pos:        position{line: 2879, col: 11, offset: 91039},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10529,10 +10529,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 306, col: 9, offset: 9324},
+												pos:   position{line: 306, col: 9, offset: 9368},
 												label: "value",
 												expr: &ruleRefExpr{
-													pos:  position{line: 306, col: 16, offset: 9331},
+													pos:  position{line: 306, col: 16, offset: 9375},
 													name: "AttributeDeclarationValue",
 												},
 											},
@@ -10542,28 +10542,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -10585,58 +10585,58 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 322, col: 1, offset: 9803},
+			pos:  position{line: 322, col: 1, offset: 9847},
 			expr: &actionExpr{
-				pos: position{line: 323, col: 5, offset: 9837},
+				pos: position{line: 323, col: 5, offset: 9881},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 323, col: 5, offset: 9837},
+					pos: position{line: 323, col: 5, offset: 9881},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 323, col: 5, offset: 9837},
+							pos:   position{line: 323, col: 5, offset: 9881},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 323, col: 15, offset: 9847},
+								pos:  position{line: 323, col: 15, offset: 9891},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9887},
+							pos:   position{line: 324, col: 5, offset: 9931},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 324, col: 19, offset: 9901},
+								pos: position{line: 324, col: 19, offset: 9945},
 								expr: &actionExpr{
-									pos: position{line: 325, col: 9, offset: 9911},
+									pos: position{line: 325, col: 9, offset: 9955},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 325, col: 9, offset: 9911},
+										pos: position{line: 325, col: 9, offset: 9955},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 325, col: 9, offset: 9911},
+												pos:        position{line: 325, col: 9, offset: 9955},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2884, col: 12, offset: 91105},
+												pos: position{line: 2884, col: 12, offset: 91149},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2884, col: 13, offset: 91106},
+													pos: position{line: 2884, col: 13, offset: 91150},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2884, col: 13, offset: 91106},
+															pos:        position{line: 2884, col: 13, offset: 91150},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2884, col: 20, offset: 91113},
+															pos:        position{line: 2884, col: 20, offset: 91157},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2884, col: 29, offset: 91122},
+															pos:        position{line: 2884, col: 29, offset: 91166},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10645,12 +10645,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 326, col: 9, offset: 9933},
+												pos: position{line: 326, col: 9, offset: 9977},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 10, offset: 90934},
+													pos: position{line: 2875, col: 10, offset: 90978},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2875, col: 10, offset: 90934},
+														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10659,10 +10659,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 327, col: 9, offset: 9948},
+												pos:   position{line: 327, col: 9, offset: 9992},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 327, col: 19, offset: 9958},
+													pos:  position{line: 327, col: 19, offset: 10002},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10677,17 +10677,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 338, col: 1, offset: 10288},
+			pos:  position{line: 338, col: 1, offset: 10332},
 			expr: &actionExpr{
-				pos: position{line: 339, col: 5, offset: 10330},
+				pos: position{line: 339, col: 5, offset: 10374},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 339, col: 5, offset: 10330},
+					pos:   position{line: 339, col: 5, offset: 10374},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 339, col: 14, offset: 10339},
+						pos: position{line: 339, col: 14, offset: 10383},
 						expr: &ruleRefExpr{
-							pos:  position{line: 339, col: 15, offset: 10340},
+							pos:  position{line: 339, col: 15, offset: 10384},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10696,34 +10696,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 343, col: 1, offset: 10429},
+			pos:  position{line: 343, col: 1, offset: 10473},
 			expr: &actionExpr{
-				pos: position{line: 344, col: 5, offset: 10470},
+				pos: position{line: 344, col: 5, offset: 10514},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 344, col: 5, offset: 10470},
+					pos: position{line: 344, col: 5, offset: 10514},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 344, col: 5, offset: 10470},
+							pos: position{line: 344, col: 5, offset: 10514},
 							expr: &seqExpr{
-								pos: position{line: 344, col: 7, offset: 10472},
+								pos: position{line: 344, col: 7, offset: 10516},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 344, col: 7, offset: 10472},
+										pos: position{line: 344, col: 7, offset: 10516},
 										expr: &litMatcher{
-											pos:        position{line: 344, col: 7, offset: 10472},
+											pos:        position{line: 344, col: 7, offset: 10516},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 344, col: 13, offset: 10478},
+										pos: position{line: 344, col: 13, offset: 10522},
 										expr: &actionExpr{
-											pos: position{line: 2875, col: 10, offset: 90934},
+											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2875, col: 10, offset: 90934},
+												pos:        position{line: 2875, col: 10, offset: 90978},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10732,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2897, col: 8, offset: 91332},
+										pos: position{line: 2897, col: 8, offset: 91376},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2884, col: 12, offset: 91105},
+												pos: position{line: 2884, col: 12, offset: 91149},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2884, col: 13, offset: 91106},
+													pos: position{line: 2884, col: 13, offset: 91150},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2884, col: 13, offset: 91106},
+															pos:        position{line: 2884, col: 13, offset: 91150},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2884, col: 20, offset: 91113},
+															pos:        position{line: 2884, col: 20, offset: 91157},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2884, col: 29, offset: 91122},
+															pos:        position{line: 2884, col: 29, offset: 91166},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10762,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2894, col: 8, offset: 91282},
+												pos: position{line: 2894, col: 8, offset: 91326},
 												expr: &anyMatcher{
-													line: 2894, col: 9, offset: 91283,
+													line: 2894, col: 9, offset: 91327,
 												},
 											},
 										},
@@ -10773,22 +10773,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 345, col: 5, offset: 10494},
+							pos:   position{line: 345, col: 5, offset: 10538},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 346, col: 9, offset: 10512},
+								pos: position{line: 346, col: 9, offset: 10556},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 346, col: 9, offset: 10512},
+										pos:  position{line: 346, col: 9, offset: 10556},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 347, col: 12, offset: 10541},
+										pos: position{line: 347, col: 12, offset: 10585},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 347, col: 12, offset: 10541},
+											pos: position{line: 347, col: 12, offset: 10585},
 											expr: &charClassMatcher{
-												pos:        position{line: 347, col: 12, offset: 10541},
+												pos:        position{line: 347, col: 12, offset: 10585},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2469, col: 5, offset: 79394},
+										pos: position{line: 2469, col: 5, offset: 79438},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2469, col: 5, offset: 79394},
+											pos: position{line: 2469, col: 5, offset: 79438},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2469, col: 5, offset: 79394},
+													pos: position{line: 2469, col: 5, offset: 79438},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 5, offset: 79470},
+													pos:   position{line: 2472, col: 5, offset: 79514},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2473, col: 9, offset: 79488},
+														pos: position{line: 2473, col: 9, offset: 79532},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2473, col: 10, offset: 79489},
+															pos:        position{line: 2473, col: 10, offset: 79533},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10825,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 10, offset: 90934},
+										pos: position{line: 2875, col: 10, offset: 90978},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 10, offset: 90934},
+											pos:        position{line: 2875, col: 10, offset: 90978},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10836,44 +10836,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20153},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20153},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20153},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20225},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20234},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20363},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20363},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20363},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20371},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonAttributeDeclarationValueElement41,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10881,9 +10881,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10896,7 +10896,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20390},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -10905,28 +10905,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20631},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20631},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20631},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20635},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonAttributeDeclarationValueElement51,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10934,9 +10934,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10949,7 +10949,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20654},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -10958,28 +10958,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20835},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20835},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20835},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20847},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonAttributeDeclarationValueElement61,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10987,9 +10987,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11002,33 +11002,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20866},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20872},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21171},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21178},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21178},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11036,12 +11036,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21232},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11058,7 +11058,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20888},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11067,28 +11067,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21006},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21006},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 21006},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 21019},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonAttributeDeclarationValueElement83,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11096,9 +11096,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11111,33 +11111,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21038},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21044},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21171},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21178},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21178},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11145,12 +11145,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21232},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11167,7 +11167,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21060},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11190,60 +11190,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 369, col: 1, offset: 11360},
+			pos:  position{line: 369, col: 1, offset: 11404},
 			expr: &actionExpr{
-				pos: position{line: 370, col: 5, offset: 11383},
+				pos: position{line: 370, col: 5, offset: 11427},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 370, col: 5, offset: 11383},
+					pos:   position{line: 370, col: 5, offset: 11427},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 370, col: 16, offset: 11394},
+						pos: position{line: 370, col: 16, offset: 11438},
 						expr: &choiceExpr{
-							pos: position{line: 372, col: 9, offset: 11461},
+							pos: position{line: 372, col: 9, offset: 11505},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 372, col: 10, offset: 11462},
+									pos: position{line: 372, col: 10, offset: 11506},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 372, col: 10, offset: 11462},
+										pos: position{line: 372, col: 10, offset: 11506},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 372, col: 10, offset: 11462},
+												pos:   position{line: 372, col: 10, offset: 11506},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12337},
+													pos: position{line: 404, col: 5, offset: 12381},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 404, col: 5, offset: 12381},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12337},
+																pos:        position{line: 404, col: 5, offset: 12381},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12347},
+																pos:   position{line: 405, col: 5, offset: 12391},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12360},
+																	pos: position{line: 406, col: 9, offset: 12404},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12360},
+																		pos:   position{line: 406, col: 9, offset: 12404},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12369},
+																			pos: position{line: 406, col: 18, offset: 12413},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12383},
+																				pos: position{line: 407, col: 13, offset: 12427},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12384},
+																						pos: position{line: 407, col: 14, offset: 12428},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 407, col: 14, offset: 12428},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12384},
+																								pos:        position{line: 407, col: 14, offset: 12428},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11252,27 +11252,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 36972},
+																						pos: position{line: 1198, col: 23, offset: 37016},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1198, col: 23, offset: 37016},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1196, col: 32, offset: 36984},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37000},
+																									pos:   position{line: 1198, col: 51, offset: 37044},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37005},
+																										pos: position{line: 1198, col: 56, offset: 37049},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1198, col: 56, offset: 37049},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37005},
+																												pos:        position{line: 1198, col: 56, offset: 37049},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11282,7 +11282,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1196, col: 32, offset: 36984},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11291,44 +11291,44 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 636, col: 5, offset: 20153},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20109},
+																									pos: position{line: 636, col: 5, offset: 20153},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20181},
+																									pos:   position{line: 639, col: 5, offset: 20225},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20190},
+																										pos: position{line: 639, col: 14, offset: 20234},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20319},
+																												pos: position{line: 645, col: 5, offset: 20363},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 645, col: 5, offset: 20363},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20319},
+																															pos:        position{line: 645, col: 5, offset: 20363},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20327},
+																															pos:   position{line: 645, col: 13, offset: 20371},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9780},
 																																run: (*parser).callonBlockAttributes36,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9780},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11336,9 +11336,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9791},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11351,7 +11351,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20346},
+																															pos:        position{line: 645, col: 32, offset: 20390},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11360,28 +11360,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20587},
+																												pos: position{line: 652, col: 5, offset: 20631},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 652, col: 5, offset: 20631},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20587},
+																															pos:        position{line: 652, col: 5, offset: 20631},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20591},
+																															pos:   position{line: 652, col: 9, offset: 20635},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9780},
 																																run: (*parser).callonBlockAttributes46,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9780},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11389,9 +11389,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9791},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11404,7 +11404,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20610},
+																															pos:        position{line: 652, col: 28, offset: 20654},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11413,28 +11413,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20791},
+																												pos: position{line: 658, col: 25, offset: 20835},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 658, col: 25, offset: 20835},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20791},
+																															pos:        position{line: 658, col: 25, offset: 20835},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20803},
+																															pos:   position{line: 658, col: 37, offset: 20847},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9780},
 																																run: (*parser).callonBlockAttributes56,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9780},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11442,9 +11442,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9791},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11457,33 +11457,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20822},
+																															pos:   position{line: 658, col: 56, offset: 20866},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20828},
+																																pos: position{line: 658, col: 62, offset: 20872},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 666, col: 17, offset: 21167},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21167},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 666, col: 17, offset: 21167},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 666, col: 21, offset: 21171},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 666, col: 28, offset: 21178},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 666, col: 28, offset: 21178},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 666, col: 28, offset: 21178},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11491,12 +11491,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 668, col: 9, offset: 21232},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21232},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 668, col: 9, offset: 21232},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11513,7 +11513,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20844},
+																															pos:        position{line: 658, col: 78, offset: 20888},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11522,28 +11522,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 20962},
+																												pos: position{line: 662, col: 25, offset: 21006},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 662, col: 25, offset: 21006},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 20962},
+																															pos:        position{line: 662, col: 25, offset: 21006},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 20975},
+																															pos:   position{line: 662, col: 38, offset: 21019},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9780},
 																																run: (*parser).callonBlockAttributes78,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9780},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11551,9 +11551,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9791},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11566,33 +11566,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 20994},
+																															pos:   position{line: 662, col: 57, offset: 21038},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21000},
+																																pos: position{line: 662, col: 63, offset: 21044},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 666, col: 17, offset: 21167},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21167},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 666, col: 17, offset: 21167},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 666, col: 21, offset: 21171},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 666, col: 28, offset: 21178},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 666, col: 28, offset: 21178},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 666, col: 28, offset: 21178},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11600,12 +11600,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 668, col: 9, offset: 21232},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21232},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 668, col: 9, offset: 21232},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11622,7 +11622,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21016},
+																															pos:        position{line: 662, col: 79, offset: 21060},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11637,10 +11637,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12617},
+																						pos: position{line: 412, col: 16, offset: 12661},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12617},
+																							pos:        position{line: 412, col: 16, offset: 12661},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11653,7 +11653,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12803},
+																pos:        position{line: 418, col: 5, offset: 12847},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11663,12 +11663,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 35, offset: 11487},
+												pos: position{line: 372, col: 35, offset: 11531},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 10, offset: 90934},
+													pos: position{line: 2875, col: 10, offset: 90978},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2875, col: 10, offset: 90934},
+														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11677,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2897, col: 8, offset: 91332},
+												pos: position{line: 2897, col: 8, offset: 91376},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2884, col: 12, offset: 91105},
+														pos: position{line: 2884, col: 12, offset: 91149},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 13, offset: 91106},
+															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 13, offset: 91106},
+																	pos:        position{line: 2884, col: 13, offset: 91150},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 20, offset: 91113},
+																	pos:        position{line: 2884, col: 20, offset: 91157},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 29, offset: 91122},
+																	pos:        position{line: 2884, col: 29, offset: 91166},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,34 +11707,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2894, col: 8, offset: 91282},
+														pos: position{line: 2894, col: 8, offset: 91326},
 														expr: &anyMatcher{
-															line: 2894, col: 9, offset: 91283,
+															line: 2894, col: 9, offset: 91327,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 46, offset: 11498},
+												pos: position{line: 372, col: 46, offset: 11542},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21533},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2892, col: 11, offset: 91268},
+																pos: position{line: 2892, col: 11, offset: 91312},
 																expr: &anyMatcher{
-																	line: 2892, col: 13, offset: 91270,
+																	line: 2892, col: 13, offset: 91314,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -11788,30 +11788,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11619},
+									pos: position{line: 376, col: 12, offset: 11663},
 									run: (*parser).callonBlockAttributes126,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11619},
+										pos: position{line: 376, col: 12, offset: 11663},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11619},
+												pos:   position{line: 376, col: 12, offset: 11663},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12922},
+													pos: position{line: 423, col: 19, offset: 12966},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12922},
+														pos: position{line: 423, col: 19, offset: 12966},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12922},
+																pos:        position{line: 423, col: 19, offset: 12966},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12931},
+																pos: position{line: 424, col: 5, offset: 12975},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 12932},
+																	pos:        position{line: 424, col: 6, offset: 12976},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -11819,20 +11819,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13044},
+																pos:   position{line: 425, col: 5, offset: 13088},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13053},
+																	pos: position{line: 425, col: 14, offset: 13097},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13063},
+																		pos: position{line: 426, col: 9, offset: 13107},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2769, col: 14, offset: 88103},
+																				pos: position{line: 2769, col: 14, offset: 88147},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2769, col: 14, offset: 88103},
+																					pos: position{line: 2769, col: 14, offset: 88147},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2769, col: 14, offset: 88103},
+																						pos:        position{line: 2769, col: 14, offset: 88147},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11841,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11852,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2792, col: 5, offset: 88588},
+																				pos: position{line: 2792, col: 5, offset: 88632},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2793, col: 9, offset: 88598},
+																					pos: position{line: 2793, col: 9, offset: 88642},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2793, col: 10, offset: 88599},
+																							pos:        position{line: 2793, col: 10, offset: 88643},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2795, col: 13, offset: 88696},
+																							pos: position{line: 2795, col: 13, offset: 88740},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2795, col: 13, offset: 88696},
+																									pos: position{line: 2795, col: 13, offset: 88740},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88796},
+																									pos:        position{line: 2798, col: 13, offset: 88840},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11880,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2798, col: 19, offset: 88802},
+																							pos:        position{line: 2798, col: 19, offset: 88846},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2801, col: 13, offset: 88840},
+																							pos: position{line: 2801, col: 13, offset: 88884},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2801, col: 13, offset: 88840},
+																									pos: position{line: 2801, col: 13, offset: 88884},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2804, col: 14, offset: 88933},
+																									pos:        position{line: 2804, col: 14, offset: 88977},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11902,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2806, col: 12, offset: 88977},
+																							pos: position{line: 2806, col: 12, offset: 89021},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2806, col: 12, offset: 88977},
+																									pos:        position{line: 2806, col: 12, offset: 89021},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2806, col: 16, offset: 88981},
+																									pos: position{line: 2806, col: 16, offset: 89025},
 																									expr: &litMatcher{
-																										pos:        position{line: 2806, col: 17, offset: 88982},
+																										pos:        position{line: 2806, col: 17, offset: 89026},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -11925,28 +11925,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20363},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20363},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20371},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								run: (*parser).callonBlockAttributes160,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9780},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11954,9 +11954,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9791},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11969,7 +11969,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20390},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -11978,28 +11978,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20631},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20631},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20635},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								run: (*parser).callonBlockAttributes170,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9780},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12007,9 +12007,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9791},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12022,7 +12022,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20654},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12031,10 +12031,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2814, col: 12, offset: 89242},
+																				pos: position{line: 2814, col: 12, offset: 89286},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 12, offset: 89242},
+																					pos:        position{line: 2814, col: 12, offset: 89286},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12050,12 +12050,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11642},
+												pos: position{line: 376, col: 35, offset: 11686},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 10, offset: 90934},
+													pos: position{line: 2875, col: 10, offset: 90978},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2875, col: 10, offset: 90934},
+														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12064,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2897, col: 8, offset: 91332},
+												pos: position{line: 2897, col: 8, offset: 91376},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2884, col: 12, offset: 91105},
+														pos: position{line: 2884, col: 12, offset: 91149},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 13, offset: 91106},
+															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 13, offset: 91106},
+																	pos:        position{line: 2884, col: 13, offset: 91150},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 20, offset: 91113},
+																	pos:        position{line: 2884, col: 20, offset: 91157},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 29, offset: 91122},
+																	pos:        position{line: 2884, col: 29, offset: 91166},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,34 +12094,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2894, col: 8, offset: 91282},
+														pos: position{line: 2894, col: 8, offset: 91326},
 														expr: &anyMatcher{
-															line: 2894, col: 9, offset: 91283,
+															line: 2894, col: 9, offset: 91327,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11653},
+												pos: position{line: 376, col: 46, offset: 11697},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21533},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2892, col: 11, offset: 91268},
+																pos: position{line: 2892, col: 11, offset: 91312},
 																expr: &anyMatcher{
-																	line: 2892, col: 13, offset: 91270,
+																	line: 2892, col: 13, offset: 91314,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12130,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12160,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -12175,26 +12175,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11743},
+									pos: position{line: 380, col: 12, offset: 11787},
 									run: (*parser).callonBlockAttributes205,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11743},
+										pos: position{line: 380, col: 12, offset: 11787},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11743},
+												pos:   position{line: 380, col: 12, offset: 11787},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 24, offset: 11755},
+													pos:  position{line: 380, col: 24, offset: 11799},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 44, offset: 11775},
+												pos: position{line: 380, col: 44, offset: 11819},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 10, offset: 90934},
+													pos: position{line: 2875, col: 10, offset: 90978},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2875, col: 10, offset: 90934},
+														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12203,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2897, col: 8, offset: 91332},
+												pos: position{line: 2897, col: 8, offset: 91376},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2884, col: 12, offset: 91105},
+														pos: position{line: 2884, col: 12, offset: 91149},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 13, offset: 91106},
+															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 13, offset: 91106},
+																	pos:        position{line: 2884, col: 13, offset: 91150},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 20, offset: 91113},
+																	pos:        position{line: 2884, col: 20, offset: 91157},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 29, offset: 91122},
+																	pos:        position{line: 2884, col: 29, offset: 91166},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,34 +12233,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2894, col: 8, offset: 91282},
+														pos: position{line: 2894, col: 8, offset: 91326},
 														expr: &anyMatcher{
-															line: 2894, col: 9, offset: 91283,
+															line: 2894, col: 9, offset: 91327,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 55, offset: 11786},
+												pos: position{line: 380, col: 55, offset: 11830},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21533},
 													run: (*parser).callonBlockAttributes221,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2892, col: 11, offset: 91268},
+																pos: position{line: 2892, col: 11, offset: 91312},
 																expr: &anyMatcher{
-																	line: 2892, col: 13, offset: 91270,
+																	line: 2892, col: 13, offset: 91314,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -12321,51 +12321,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 11970},
+			pos:  position{line: 388, col: 1, offset: 12014},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 11994},
+				pos: position{line: 389, col: 5, offset: 12038},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 11994},
+					pos: position{line: 389, col: 5, offset: 12038},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 11994},
+							pos:        position{line: 389, col: 5, offset: 12038},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12002},
+							pos:   position{line: 390, col: 5, offset: 12046},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12013},
+								pos: position{line: 390, col: 16, offset: 12057},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12023},
+									pos: position{line: 391, col: 9, offset: 12067},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12037},
+										pos: position{line: 392, col: 13, offset: 12081},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12037},
+												pos: position{line: 392, col: 13, offset: 12081},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12038},
+													pos:        position{line: 392, col: 14, offset: 12082},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12070},
+												pos:   position{line: 393, col: 13, offset: 12114},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12081},
+													pos: position{line: 393, col: 24, offset: 12125},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12081},
+															pos:  position{line: 393, col: 24, offset: 12125},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12103},
+															pos:  position{line: 393, col: 46, offset: 12147},
 															name: "NamedAttribute",
 														},
 													},
@@ -12377,7 +12377,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12186},
+							pos:        position{line: 398, col: 5, offset: 12230},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12388,62 +12388,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13444},
+			pos:  position{line: 437, col: 1, offset: 13488},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13470},
+				pos: position{line: 438, col: 5, offset: 13514},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13470},
+					pos: position{line: 438, col: 5, offset: 13514},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13470},
+							pos: position{line: 438, col: 5, offset: 13514},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13471},
+								pos:        position{line: 438, col: 6, offset: 13515},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13475},
+							pos:        position{line: 438, col: 10, offset: 13519},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13479},
+							pos: position{line: 438, col: 14, offset: 13523},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13480},
+								pos:        position{line: 438, col: 15, offset: 13524},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13593},
+							pos:   position{line: 439, col: 5, offset: 13637},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13619},
+								pos: position{line: 439, col: 31, offset: 13663},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13620},
+									pos:  position{line: 439, col: 32, offset: 13664},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13652},
+							pos:   position{line: 440, col: 5, offset: 13696},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13668},
+								pos: position{line: 440, col: 21, offset: 13712},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13669},
+									pos: position{line: 440, col: 22, offset: 13713},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13669},
+											pos:  position{line: 440, col: 22, offset: 13713},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13691},
+											pos:  position{line: 440, col: 44, offset: 13735},
 											name: "NamedAttribute",
 										},
 									},
@@ -12451,7 +12451,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13712},
+							pos:        position{line: 441, col: 5, offset: 13756},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12462,69 +12462,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14240},
+			pos:  position{line: 454, col: 1, offset: 14284},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14274},
+				pos: position{line: 455, col: 5, offset: 14318},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14274},
+					pos: position{line: 455, col: 5, offset: 14318},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14274},
+							pos:   position{line: 455, col: 5, offset: 14318},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14279},
+								pos: position{line: 455, col: 10, offset: 14323},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14289},
+									pos:  position{line: 456, col: 9, offset: 14333},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14319},
+							pos:   position{line: 458, col: 5, offset: 14363},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14326},
+								pos: position{line: 458, col: 12, offset: 14370},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14337},
+									pos: position{line: 459, col: 9, offset: 14381},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14337},
+										pos: position{line: 459, col: 9, offset: 14381},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14337},
+												pos: position{line: 459, col: 9, offset: 14381},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14338},
+													pos:        position{line: 459, col: 10, offset: 14382},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14342},
+												pos: position{line: 459, col: 14, offset: 14386},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14343},
+													pos:        position{line: 459, col: 15, offset: 14387},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14355},
+												pos:   position{line: 460, col: 9, offset: 14399},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14375},
+													pos: position{line: 461, col: 13, offset: 14419},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14375},
+															pos:  position{line: 461, col: 13, offset: 14419},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14411},
+															pos:  position{line: 462, col: 15, offset: 14455},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14450},
+															pos:  position{line: 463, col: 15, offset: 14494},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12536,23 +12536,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14526},
+							pos: position{line: 466, col: 8, offset: 14570},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14527},
+								pos: position{line: 466, col: 9, offset: 14571},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14527},
+										pos:        position{line: 466, col: 9, offset: 14571},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14531},
+										pos: position{line: 466, col: 13, offset: 14575},
 										expr: &actionExpr{
-											pos: position{line: 2875, col: 10, offset: 90934},
+											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2875, col: 10, offset: 90934},
+												pos:        position{line: 2875, col: 10, offset: 90978},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12564,7 +12564,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14545},
+							pos: position{line: 467, col: 5, offset: 14589},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12573,24 +12573,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 14961},
+			pos:  position{line: 483, col: 1, offset: 15005},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 14985},
+				pos: position{line: 483, col: 25, offset: 15029},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 14985},
+					pos: position{line: 483, col: 25, offset: 15029},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 14985},
+							pos:        position{line: 483, col: 25, offset: 15029},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 14989},
+							pos:   position{line: 483, col: 29, offset: 15033},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 14993},
+								pos:  position{line: 483, col: 33, offset: 15037},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12600,15 +12600,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15067},
+			pos:  position{line: 487, col: 1, offset: 15111},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15089},
+				pos: position{line: 487, col: 23, offset: 15133},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15089},
+					pos:   position{line: 487, col: 23, offset: 15133},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15096},
+						pos:  position{line: 487, col: 30, offset: 15140},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12616,24 +12616,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15222},
+			pos:  position{line: 492, col: 1, offset: 15266},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15251},
+				pos: position{line: 492, col: 30, offset: 15295},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15251},
+					pos: position{line: 492, col: 30, offset: 15295},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15251},
+							pos:        position{line: 492, col: 30, offset: 15295},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15255},
+							pos:   position{line: 492, col: 34, offset: 15299},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15261},
+								pos:  position{line: 492, col: 40, offset: 15305},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12643,24 +12643,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15383},
+			pos:  position{line: 497, col: 1, offset: 15427},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15411},
+				pos: position{line: 497, col: 29, offset: 15455},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15411},
+					pos: position{line: 497, col: 29, offset: 15455},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15411},
+							pos:        position{line: 497, col: 29, offset: 15455},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15415},
+							pos:   position{line: 497, col: 33, offset: 15459},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15423},
+								pos:  position{line: 497, col: 41, offset: 15467},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12670,43 +12670,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15536},
+			pos:  position{line: 502, col: 1, offset: 15580},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15568},
+				pos: position{line: 503, col: 5, offset: 15612},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15568},
+						pos:  position{line: 503, col: 5, offset: 15612},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15602},
+						pos:  position{line: 504, col: 7, offset: 15646},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15636},
+						pos: position{line: 505, col: 7, offset: 15680},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15636},
+							pos: position{line: 505, col: 7, offset: 15680},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15636},
+									pos:   position{line: 505, col: 7, offset: 15680},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15645},
+										pos: position{line: 505, col: 16, offset: 15689},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15827},
+											pos: position{line: 508, col: 9, offset: 15871},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15827},
+													pos:  position{line: 508, col: 9, offset: 15871},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15853},
+													pos: position{line: 509, col: 12, offset: 15897},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15853},
+														pos: position{line: 509, col: 12, offset: 15897},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15853},
+															pos:        position{line: 509, col: 12, offset: 15897},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12715,44 +12715,44 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20153},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20153},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20153},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20181},
+																pos:   position{line: 639, col: 5, offset: 20225},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20190},
+																	pos: position{line: 639, col: 14, offset: 20234},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20319},
+																			pos: position{line: 645, col: 5, offset: 20363},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20363},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20319},
+																						pos:        position{line: 645, col: 5, offset: 20363},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20327},
+																						pos:   position{line: 645, col: 13, offset: 20371},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9780},
 																							run: (*parser).callonShortHandAttributeValue22,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9780},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12760,9 +12760,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9791},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12775,7 +12775,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20346},
+																						pos:        position{line: 645, col: 32, offset: 20390},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12784,28 +12784,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20587},
+																			pos: position{line: 652, col: 5, offset: 20631},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20631},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20587},
+																						pos:        position{line: 652, col: 5, offset: 20631},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20591},
+																						pos:   position{line: 652, col: 9, offset: 20635},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9780},
 																							run: (*parser).callonShortHandAttributeValue32,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9780},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12813,9 +12813,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9791},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12828,7 +12828,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20610},
+																						pos:        position{line: 652, col: 28, offset: 20654},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12837,28 +12837,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20791},
+																			pos: position{line: 658, col: 25, offset: 20835},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20791},
+																				pos: position{line: 658, col: 25, offset: 20835},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20791},
+																						pos:        position{line: 658, col: 25, offset: 20835},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20803},
+																						pos:   position{line: 658, col: 37, offset: 20847},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9780},
 																							run: (*parser).callonShortHandAttributeValue42,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9780},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12866,9 +12866,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9791},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12881,33 +12881,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20822},
+																						pos:   position{line: 658, col: 56, offset: 20866},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20828},
+																							pos: position{line: 658, col: 62, offset: 20872},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 666, col: 17, offset: 21167},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 666, col: 17, offset: 21167},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 666, col: 17, offset: 21167},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 666, col: 21, offset: 21171},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21178},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21178},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 666, col: 28, offset: 21178},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -12915,12 +12915,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 668, col: 9, offset: 21232},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 668, col: 9, offset: 21232},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 668, col: 9, offset: 21232},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -12937,7 +12937,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20844},
+																						pos:        position{line: 658, col: 78, offset: 20888},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12946,28 +12946,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 20962},
+																			pos: position{line: 662, col: 25, offset: 21006},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 20962},
+																				pos: position{line: 662, col: 25, offset: 21006},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 20962},
+																						pos:        position{line: 662, col: 25, offset: 21006},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 20975},
+																						pos:   position{line: 662, col: 38, offset: 21019},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9780},
 																							run: (*parser).callonShortHandAttributeValue64,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9780},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9780},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12975,9 +12975,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9791},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12990,33 +12990,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 20994},
+																						pos:   position{line: 662, col: 57, offset: 21038},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21000},
+																							pos: position{line: 662, col: 63, offset: 21044},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 666, col: 17, offset: 21167},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 666, col: 17, offset: 21167},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 666, col: 17, offset: 21167},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 666, col: 21, offset: 21171},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21178},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21178},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 666, col: 28, offset: 21178},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13024,12 +13024,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 668, col: 9, offset: 21232},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 668, col: 9, offset: 21232},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 668, col: 9, offset: 21232},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13046,7 +13046,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21016},
+																						pos:        position{line: 662, col: 79, offset: 21060},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13061,10 +13061,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16021},
+													pos: position{line: 514, col: 12, offset: 16065},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16021},
+														pos:        position{line: 514, col: 12, offset: 16065},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13075,19 +13075,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16109},
+									pos: position{line: 518, col: 5, offset: 16153},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16111},
+										pos: position{line: 518, col: 7, offset: 16155},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16113},
+											pos: position{line: 518, col: 9, offset: 16157},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16113},
+													pos: position{line: 518, col: 9, offset: 16157},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13096,7 +13096,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16120},
+													pos:        position{line: 518, col: 16, offset: 16164},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13113,45 +13113,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16198},
+			pos:  position{line: 523, col: 1, offset: 16242},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16221},
+				pos: position{line: 523, col: 24, offset: 16265},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16227},
+						pos: position{line: 524, col: 5, offset: 16271},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16227},
+							pos: position{line: 524, col: 5, offset: 16271},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16227},
+									pos:   position{line: 524, col: 5, offset: 16271},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16234},
+										pos:  position{line: 524, col: 12, offset: 16278},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16251},
+									pos: position{line: 524, col: 29, offset: 16295},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16251},
+											pos: position{line: 524, col: 29, offset: 16295},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16252},
+												pos: position{line: 524, col: 30, offset: 16296},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16252},
+														pos:        position{line: 524, col: 30, offset: 16296},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16256},
+														pos: position{line: 524, col: 34, offset: 16300},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13163,9 +13163,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16267},
+											pos: position{line: 524, col: 45, offset: 16311},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16268},
+												pos:        position{line: 524, col: 46, offset: 16312},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13177,24 +13177,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16413},
+						pos: position{line: 529, col: 6, offset: 16457},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16413},
+							pos: position{line: 529, col: 6, offset: 16457},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16413},
+									pos:   position{line: 529, col: 6, offset: 16457},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16420},
+										pos: position{line: 529, col: 13, offset: 16464},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16420},
+												pos: position{line: 529, col: 13, offset: 16464},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 10, offset: 90934},
+													pos: position{line: 2875, col: 10, offset: 90978},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2875, col: 10, offset: 90934},
+														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13203,24 +13203,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16428},
+												pos: position{line: 529, col: 21, offset: 16472},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16429},
+														pos: position{line: 529, col: 22, offset: 16473},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16429},
+																pos:        position{line: 529, col: 22, offset: 16473},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16433},
+																pos: position{line: 529, col: 26, offset: 16477},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13231,9 +13231,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16443},
+														pos: position{line: 529, col: 36, offset: 16487},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16444},
+															pos:        position{line: 529, col: 37, offset: 16488},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13245,7 +13245,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16454},
+									pos: position{line: 530, col: 5, offset: 16498},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13256,29 +13256,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16769},
+			pos:  position{line: 540, col: 1, offset: 16813},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16792},
+				pos: position{line: 541, col: 5, offset: 16836},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16792},
+					pos: position{line: 541, col: 5, offset: 16836},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16792},
+							pos:   position{line: 541, col: 5, offset: 16836},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17080},
+								pos: position{line: 549, col: 22, offset: 17124},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17080},
+									pos: position{line: 549, col: 22, offset: 17124},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17080},
+											pos: position{line: 549, col: 22, offset: 17124},
 											expr: &actionExpr{
-												pos: position{line: 2875, col: 10, offset: 90934},
+												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2875, col: 10, offset: 90934},
+													pos:        position{line: 2875, col: 10, offset: 90978},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13287,9 +13287,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17087},
+											pos: position{line: 549, col: 29, offset: 17131},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17087},
+												pos:        position{line: 549, col: 29, offset: 17131},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13301,18 +13301,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16821},
+							pos:        position{line: 542, col: 5, offset: 16865},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16825},
+							pos: position{line: 542, col: 9, offset: 16869},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13321,31 +13321,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16837},
+							pos:   position{line: 543, col: 5, offset: 16881},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16844},
+								pos:  position{line: 543, col: 12, offset: 16888},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16860},
+							pos: position{line: 543, col: 28, offset: 16904},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16861},
+								pos: position{line: 543, col: 29, offset: 16905},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16861},
+										pos:        position{line: 543, col: 29, offset: 16905},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16865},
+										pos: position{line: 543, col: 33, offset: 16909},
 										expr: &actionExpr{
-											pos: position{line: 2875, col: 10, offset: 90934},
+											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2875, col: 10, offset: 90934},
+												pos:        position{line: 2875, col: 10, offset: 90978},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13362,48 +13362,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17144},
+			pos:  position{line: 553, col: 1, offset: 17188},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17167},
+				pos: position{line: 554, col: 5, offset: 17211},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17167},
+					pos: position{line: 554, col: 5, offset: 17211},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17167},
+							pos:   position{line: 554, col: 5, offset: 17211},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17183},
+								pos: position{line: 555, col: 9, offset: 17227},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17183},
+										pos:  position{line: 555, col: 9, offset: 17227},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17221},
+										pos:  position{line: 556, col: 11, offset: 17265},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17259},
+										pos:  position{line: 557, col: 11, offset: 17303},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17293},
+							pos: position{line: 559, col: 5, offset: 17337},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17295},
+								pos: position{line: 559, col: 7, offset: 17339},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17297},
+									pos: position{line: 559, col: 9, offset: 17341},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17297},
+											pos: position{line: 559, col: 9, offset: 17341},
 											expr: &actionExpr{
-												pos: position{line: 2875, col: 10, offset: 90934},
+												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2875, col: 10, offset: 90934},
+													pos:        position{line: 2875, col: 10, offset: 90978},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13412,7 +13412,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17304},
+											pos:        position{line: 559, col: 16, offset: 17348},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13427,38 +13427,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17345},
+			pos:  position{line: 563, col: 1, offset: 17389},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17380},
+				pos: position{line: 564, col: 5, offset: 17424},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17380},
+					pos: position{line: 564, col: 5, offset: 17424},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17380},
+							pos:        position{line: 564, col: 5, offset: 17424},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17384},
+							pos: position{line: 564, col: 9, offset: 17428},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17385},
+								pos:        position{line: 564, col: 10, offset: 17429},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17464},
+							pos:   position{line: 565, col: 5, offset: 17508},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17473},
+								pos:  position{line: 565, col: 14, offset: 17517},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17512},
+							pos:        position{line: 566, col: 5, offset: 17556},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13469,25 +13469,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17553},
+			pos:  position{line: 570, col: 1, offset: 17597},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17595},
+				pos: position{line: 571, col: 5, offset: 17639},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17595},
+					pos:   position{line: 571, col: 5, offset: 17639},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17604},
+						pos: position{line: 571, col: 14, offset: 17648},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17614},
+							pos: position{line: 572, col: 9, offset: 17658},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2769, col: 14, offset: 88103},
+									pos: position{line: 2769, col: 14, offset: 88147},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2769, col: 14, offset: 88103},
+										pos: position{line: 2769, col: 14, offset: 88147},
 										expr: &charClassMatcher{
-											pos:        position{line: 2769, col: 14, offset: 88103},
+											pos:        position{line: 2769, col: 14, offset: 88147},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13496,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2875, col: 10, offset: 90934},
+									pos: position{line: 2875, col: 10, offset: 90978},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2875, col: 10, offset: 90934},
+										pos:        position{line: 2875, col: 10, offset: 90978},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13507,48 +13507,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17650},
+									pos:  position{line: 574, col: 11, offset: 17694},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20153},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20153},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20153},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 639, col: 5, offset: 20225},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 639, col: 14, offset: 20234},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 645, col: 5, offset: 20363},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20363},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 645, col: 5, offset: 20363},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 645, col: 13, offset: 20371},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonSingleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13556,9 +13556,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13571,7 +13571,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 645, col: 32, offset: 20390},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13580,28 +13580,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 652, col: 5, offset: 20631},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20631},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 652, col: 5, offset: 20631},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 652, col: 9, offset: 20635},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonSingleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13609,9 +13609,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13624,7 +13624,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 652, col: 28, offset: 20654},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13633,28 +13633,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 658, col: 25, offset: 20835},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20835},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 658, col: 25, offset: 20835},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 658, col: 37, offset: 20847},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonSingleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13662,9 +13662,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13677,33 +13677,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 658, col: 56, offset: 20866},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 658, col: 62, offset: 20872},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21167},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21167},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21171},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21178},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21178},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13711,12 +13711,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21232},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21232},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13733,7 +13733,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 658, col: 78, offset: 20888},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13742,28 +13742,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 662, col: 25, offset: 21006},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21006},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 662, col: 25, offset: 21006},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 662, col: 38, offset: 21019},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonSingleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13771,9 +13771,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13786,33 +13786,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 662, col: 57, offset: 21038},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 662, col: 63, offset: 21044},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21167},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21167},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21171},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21178},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21178},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13820,12 +13820,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21232},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21232},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13842,7 +13842,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 662, col: 79, offset: 21060},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13857,44 +13857,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17704},
+									pos: position{line: 576, col: 12, offset: 17748},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17704},
+										pos:        position{line: 576, col: 12, offset: 17748},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17806},
+									pos:        position{line: 579, col: 13, offset: 17850},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17813},
+									pos:        position{line: 579, col: 20, offset: 17857},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17820},
+									pos: position{line: 579, col: 27, offset: 17864},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17820},
+										pos:        position{line: 579, col: 27, offset: 17864},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 17980},
+									pos: position{line: 582, col: 12, offset: 18024},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 17980},
+										pos: position{line: 582, col: 12, offset: 18024},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17980},
+											pos:        position{line: 582, col: 12, offset: 18024},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -13910,56 +13910,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18177},
+			pos:  position{line: 589, col: 1, offset: 18221},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18212},
+				pos: position{line: 590, col: 5, offset: 18256},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18212},
+					pos: position{line: 590, col: 5, offset: 18256},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18212},
+							pos:        position{line: 590, col: 5, offset: 18256},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18217},
+							pos: position{line: 590, col: 10, offset: 18261},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18218},
+								pos:        position{line: 590, col: 11, offset: 18262},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18297},
+							pos:   position{line: 591, col: 5, offset: 18341},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18306},
+								pos:  position{line: 591, col: 14, offset: 18350},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18345},
+							pos:        position{line: 592, col: 5, offset: 18389},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18350},
+							pos: position{line: 592, col: 10, offset: 18394},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18352},
+								pos: position{line: 592, col: 12, offset: 18396},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18354},
+									pos: position{line: 592, col: 14, offset: 18398},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18354},
+											pos: position{line: 592, col: 14, offset: 18398},
 											expr: &actionExpr{
-												pos: position{line: 2875, col: 10, offset: 90934},
+												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2875, col: 10, offset: 90934},
+													pos:        position{line: 2875, col: 10, offset: 90978},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13968,7 +13968,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18361},
+											pos:        position{line: 592, col: 21, offset: 18405},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13983,25 +13983,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18404},
+			pos:  position{line: 596, col: 1, offset: 18448},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18446},
+				pos: position{line: 597, col: 5, offset: 18490},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18446},
+					pos:   position{line: 597, col: 5, offset: 18490},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18455},
+						pos: position{line: 597, col: 14, offset: 18499},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18465},
+							pos: position{line: 598, col: 9, offset: 18509},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2769, col: 14, offset: 88103},
+									pos: position{line: 2769, col: 14, offset: 88147},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2769, col: 14, offset: 88103},
+										pos: position{line: 2769, col: 14, offset: 88147},
 										expr: &charClassMatcher{
-											pos:        position{line: 2769, col: 14, offset: 88103},
+											pos:        position{line: 2769, col: 14, offset: 88147},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14010,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2875, col: 10, offset: 90934},
+									pos: position{line: 2875, col: 10, offset: 90978},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2875, col: 10, offset: 90934},
+										pos:        position{line: 2875, col: 10, offset: 90978},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14021,48 +14021,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18501},
+									pos:  position{line: 600, col: 11, offset: 18545},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20153},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20153},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20153},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 639, col: 5, offset: 20225},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 639, col: 14, offset: 20234},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 645, col: 5, offset: 20363},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20363},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 645, col: 5, offset: 20363},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 645, col: 13, offset: 20371},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14070,9 +14070,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14085,7 +14085,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 645, col: 32, offset: 20390},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14094,28 +14094,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 652, col: 5, offset: 20631},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20631},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 652, col: 5, offset: 20631},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 652, col: 9, offset: 20635},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14123,9 +14123,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14138,7 +14138,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 652, col: 28, offset: 20654},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14147,28 +14147,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 658, col: 25, offset: 20835},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20835},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 658, col: 25, offset: 20835},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 658, col: 37, offset: 20847},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14176,9 +14176,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14191,33 +14191,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 658, col: 56, offset: 20866},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 658, col: 62, offset: 20872},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21167},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21167},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21171},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21178},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21178},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14225,12 +14225,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21232},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21232},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14247,7 +14247,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 658, col: 78, offset: 20888},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14256,28 +14256,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 662, col: 25, offset: 21006},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21006},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 662, col: 25, offset: 21006},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 662, col: 38, offset: 21019},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9780},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9780},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14285,9 +14285,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9791},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14300,33 +14300,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 662, col: 57, offset: 21038},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 662, col: 63, offset: 21044},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21167},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21167},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21171},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21178},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21178},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14334,12 +14334,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21232},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21232},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14356,7 +14356,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 662, col: 79, offset: 21060},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14371,50 +14371,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18556},
+									pos: position{line: 602, col: 12, offset: 18600},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18556},
+										pos:        position{line: 602, col: 12, offset: 18600},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18658},
+									pos:        position{line: 605, col: 13, offset: 18702},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18666},
+									pos:        position{line: 605, col: 21, offset: 18710},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18674},
+									pos:        position{line: 605, col: 29, offset: 18718},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18680},
+									pos: position{line: 605, col: 35, offset: 18724},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18680},
+										pos:        position{line: 605, col: 35, offset: 18724},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18863},
+									pos: position{line: 608, col: 12, offset: 18907},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18863},
+										pos: position{line: 608, col: 12, offset: 18907},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18863},
+											pos:        position{line: 608, col: 12, offset: 18907},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14430,20 +14430,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19137},
+			pos:  position{line: 616, col: 1, offset: 19181},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19321},
+				pos: position{line: 619, col: 5, offset: 19365},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19321},
+					pos: position{line: 619, col: 5, offset: 19365},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19321},
+							pos: position{line: 619, col: 5, offset: 19365},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14452,28 +14452,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19390},
+							pos:   position{line: 620, col: 5, offset: 19434},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19399},
+								pos: position{line: 620, col: 14, offset: 19443},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19409},
+									pos: position{line: 621, col: 9, offset: 19453},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19410},
+											pos: position{line: 621, col: 10, offset: 19454},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19410},
+													pos:        position{line: 621, col: 10, offset: 19454},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19414},
+													pos:  position{line: 621, col: 14, offset: 19458},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19437},
+													pos:        position{line: 621, col: 37, offset: 19481},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14481,44 +14481,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20153},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20153},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20153},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 639, col: 5, offset: 20225},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 639, col: 14, offset: 20234},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20363},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20363},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 645, col: 5, offset: 20363},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 645, col: 13, offset: 20371},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonUnquotedAttributeValue22,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14526,9 +14526,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14541,7 +14541,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 645, col: 32, offset: 20390},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14550,28 +14550,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20631},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 652, col: 5, offset: 20631},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 652, col: 5, offset: 20631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 652, col: 9, offset: 20635},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonUnquotedAttributeValue32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14579,9 +14579,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14594,7 +14594,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 652, col: 28, offset: 20654},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14603,28 +14603,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20835},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 658, col: 25, offset: 20835},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 658, col: 25, offset: 20835},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 658, col: 37, offset: 20847},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonUnquotedAttributeValue42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14632,9 +14632,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14647,33 +14647,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 658, col: 56, offset: 20866},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 658, col: 62, offset: 20872},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21167},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21171},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21178},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14681,12 +14681,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21232},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14703,7 +14703,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 658, col: 78, offset: 20888},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14712,28 +14712,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21006},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 662, col: 25, offset: 21006},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 662, col: 25, offset: 21006},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 662, col: 38, offset: 21019},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonUnquotedAttributeValue64,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14741,9 +14741,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14756,33 +14756,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 662, col: 57, offset: 21038},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 662, col: 63, offset: 21044},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21167},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21171},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21178},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14790,12 +14790,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21232},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14812,7 +14812,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 662, col: 79, offset: 21060},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14827,16 +14827,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19524},
+											pos:        position{line: 622, col: 32, offset: 19568},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2875, col: 10, offset: 90934},
+											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2875, col: 10, offset: 90934},
+												pos:        position{line: 2875, col: 10, offset: 90978},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14844,12 +14844,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19609},
+											pos: position{line: 624, col: 12, offset: 19653},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19609},
+												pos: position{line: 624, col: 12, offset: 19653},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19609},
+													pos:        position{line: 624, col: 12, offset: 19653},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -14867,32 +14867,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21750},
+			pos:  position{line: 684, col: 1, offset: 21794},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21768},
+				pos: position{line: 684, col: 19, offset: 21812},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21844},
+						pos: position{line: 686, col: 27, offset: 21888},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21844},
+							pos: position{line: 686, col: 27, offset: 21888},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21844},
+									pos:        position{line: 686, col: 27, offset: 21888},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21849},
+									pos:   position{line: 686, col: 32, offset: 21893},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2860, col: 7, offset: 90586},
+										pos: position{line: 2860, col: 7, offset: 90630},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2860, col: 7, offset: 90586},
+											pos: position{line: 2860, col: 7, offset: 90630},
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 7, offset: 90586},
+												pos:        position{line: 2860, col: 7, offset: 90630},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14902,12 +14902,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21857},
+									pos: position{line: 686, col: 40, offset: 21901},
 									expr: &actionExpr{
-										pos: position{line: 2875, col: 10, offset: 90934},
+										pos: position{line: 2875, col: 10, offset: 90978},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 10, offset: 90934},
+											pos:        position{line: 2875, col: 10, offset: 90978},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -14916,36 +14916,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21864},
+									pos:        position{line: 686, col: 47, offset: 21908},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 51, offset: 21868},
+									pos:   position{line: 686, col: 51, offset: 21912},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22269},
+										pos: position{line: 696, col: 24, offset: 22313},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22275},
+											pos: position{line: 697, col: 5, offset: 22319},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22276},
+													pos: position{line: 697, col: 6, offset: 22320},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 6, offset: 22276},
+														pos: position{line: 697, col: 6, offset: 22320},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 697, col: 6, offset: 22276},
+																pos:        position{line: 697, col: 6, offset: 22320},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 697, col: 14, offset: 22284},
+																pos: position{line: 697, col: 14, offset: 22328},
 																expr: &charClassMatcher{
-																	pos:        position{line: 697, col: 14, offset: 22284},
+																	pos:        position{line: 697, col: 14, offset: 22328},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -14956,28 +14956,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 645, col: 5, offset: 20363},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20319},
+														pos: position{line: 645, col: 5, offset: 20363},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20319},
+																pos:        position{line: 645, col: 5, offset: 20363},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20327},
+																pos:   position{line: 645, col: 13, offset: 20371},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9780},
 																	run: (*parser).callonCrossReference25,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 318, col: 18, offset: 9780},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 318, col: 18, offset: 9780},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14985,9 +14985,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 318, col: 28, offset: 9790},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 318, col: 29, offset: 9791},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15000,7 +15000,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20346},
+																pos:        position{line: 645, col: 32, offset: 20390},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15009,28 +15009,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 652, col: 5, offset: 20631},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20587},
+														pos: position{line: 652, col: 5, offset: 20631},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20587},
+																pos:        position{line: 652, col: 5, offset: 20631},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20591},
+																pos:   position{line: 652, col: 9, offset: 20635},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9780},
 																	run: (*parser).callonCrossReference35,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 318, col: 18, offset: 9780},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 318, col: 18, offset: 9780},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15038,9 +15038,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 318, col: 28, offset: 9790},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 318, col: 29, offset: 9791},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15053,7 +15053,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20610},
+																pos:        position{line: 652, col: 28, offset: 20654},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15062,10 +15062,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22510},
+													pos: position{line: 701, col: 8, offset: 22554},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22510},
+														pos:        position{line: 701, col: 8, offset: 22554},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15076,7 +15076,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 79, offset: 21896},
+									pos:        position{line: 686, col: 79, offset: 21940},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15085,27 +15085,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21969},
+						pos: position{line: 688, col: 9, offset: 22013},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21969},
+							pos: position{line: 688, col: 9, offset: 22013},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21969},
+									pos:        position{line: 688, col: 9, offset: 22013},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21974},
+									pos:   position{line: 688, col: 14, offset: 22018},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2860, col: 7, offset: 90586},
+										pos: position{line: 2860, col: 7, offset: 90630},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2860, col: 7, offset: 90586},
+											pos: position{line: 2860, col: 7, offset: 90630},
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 7, offset: 90586},
+												pos:        position{line: 2860, col: 7, offset: 90630},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15115,7 +15115,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 21982},
+									pos:        position{line: 688, col: 22, offset: 22026},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15124,7 +15124,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21793},
+						pos:  position{line: 684, col: 44, offset: 21837},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15132,58 +15132,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22053},
+			pos:  position{line: 692, col: 1, offset: 22097},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22079},
+				pos: position{line: 692, col: 27, offset: 22123},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22079},
+					pos: position{line: 692, col: 27, offset: 22123},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22079},
+							pos:        position{line: 692, col: 27, offset: 22123},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22087},
+							pos:   position{line: 692, col: 35, offset: 22131},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2829, col: 17, offset: 89597},
+								pos: position{line: 2829, col: 17, offset: 89641},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2829, col: 17, offset: 89597},
+									pos:   position{line: 2829, col: 17, offset: 89641},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 5, offset: 90051},
+										pos: position{line: 2846, col: 5, offset: 90095},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2846, col: 5, offset: 90051},
+											pos:   position{line: 2846, col: 5, offset: 90095},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2846, col: 14, offset: 90060},
+												pos: position{line: 2846, col: 14, offset: 90104},
 												expr: &choiceExpr{
-													pos: position{line: 2847, col: 9, offset: 90070},
+													pos: position{line: 2847, col: 9, offset: 90114},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2847, col: 9, offset: 90070},
+															pos: position{line: 2847, col: 9, offset: 90114},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2847, col: 9, offset: 90070},
+																pos: position{line: 2847, col: 9, offset: 90114},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2847, col: 9, offset: 90070},
+																		pos: position{line: 2847, col: 9, offset: 90114},
 																		expr: &litMatcher{
-																			pos:        position{line: 2847, col: 10, offset: 90071},
+																			pos:        position{line: 2847, col: 10, offset: 90115},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2848, col: 9, offset: 90099},
+																		pos: position{line: 2848, col: 9, offset: 90143},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2848, col: 10, offset: 90100},
+																			pos:        position{line: 2848, col: 10, offset: 90144},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15194,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2851, col: 11, offset: 90312},
+															pos: position{line: 2851, col: 11, offset: 90356},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2851, col: 11, offset: 90312},
+																	pos:        position{line: 2851, col: 11, offset: 90356},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2851, col: 19, offset: 90320},
+																	pos: position{line: 2851, col: 19, offset: 90364},
 																	expr: &seqExpr{
-																		pos: position{line: 2851, col: 21, offset: 90322},
+																		pos: position{line: 2851, col: 21, offset: 90366},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2851, col: 21, offset: 90322},
+																				pos: position{line: 2851, col: 21, offset: 90366},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15223,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2851, col: 28, offset: 90329},
+																				pos: position{line: 2851, col: 28, offset: 90373},
 																				expr: &notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -15237,44 +15237,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 636, col: 5, offset: 20153},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20153},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20153},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 639, col: 5, offset: 20225},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 639, col: 14, offset: 20234},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20363},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20363},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 645, col: 5, offset: 20363},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 645, col: 13, offset: 20371},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonExternalCrossReference36,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15282,9 +15282,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15297,7 +15297,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 645, col: 32, offset: 20390},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15306,28 +15306,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20631},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20631},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 652, col: 5, offset: 20631},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 652, col: 9, offset: 20635},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonExternalCrossReference46,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15335,9 +15335,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15350,7 +15350,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 652, col: 28, offset: 20654},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15359,28 +15359,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 658, col: 25, offset: 20835},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 658, col: 25, offset: 20835},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 658, col: 25, offset: 20835},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 658, col: 37, offset: 20847},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonExternalCrossReference56,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15388,9 +15388,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15403,33 +15403,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 658, col: 56, offset: 20866},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 658, col: 62, offset: 20872},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21167},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21167},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21167},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21171},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21178},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21178},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15437,12 +15437,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21232},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21232},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21232},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15459,7 +15459,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 658, col: 78, offset: 20888},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15468,28 +15468,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 662, col: 25, offset: 21006},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 662, col: 25, offset: 21006},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 662, col: 25, offset: 21006},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 662, col: 38, offset: 21019},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonExternalCrossReference78,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15497,9 +15497,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15512,33 +15512,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 662, col: 57, offset: 21038},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 662, col: 63, offset: 21044},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21167},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21167},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21167},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21171},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21178},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21178},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15546,12 +15546,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21232},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21232},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21232},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15568,7 +15568,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 662, col: 79, offset: 21060},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15583,27 +15583,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1198, col: 23, offset: 37016},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1198, col: 23, offset: 37016},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36984},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1198, col: 51, offset: 37044},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1198, col: 56, offset: 37049},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1198, col: 56, offset: 37049},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1198, col: 56, offset: 37049},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15613,7 +15613,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36984},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15622,10 +15622,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2854, col: 11, offset: 90449},
+															pos: position{line: 2854, col: 11, offset: 90493},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2854, col: 11, offset: 90449},
+																pos:        position{line: 2854, col: 11, offset: 90493},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15640,10 +15640,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22106},
+							pos:   position{line: 692, col: 54, offset: 22150},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22118},
+								pos:  position{line: 692, col: 66, offset: 22162},
 								name: "InlineAttributes",
 							},
 						},
@@ -15653,29 +15653,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30767},
+			pos:  position{line: 988, col: 1, offset: 30811},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30800},
+				pos: position{line: 989, col: 5, offset: 30844},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30800},
+					pos: position{line: 989, col: 5, offset: 30844},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30800},
+							pos:        position{line: 989, col: 5, offset: 30844},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30806},
+							pos:   position{line: 989, col: 11, offset: 30850},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2825, col: 14, offset: 89527},
+								pos: position{line: 2825, col: 14, offset: 89571},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2825, col: 14, offset: 89527},
+									pos: position{line: 2825, col: 14, offset: 89571},
 									expr: &charClassMatcher{
-										pos:        position{line: 2825, col: 14, offset: 89527},
+										pos:        position{line: 2825, col: 14, offset: 89571},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15685,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15715,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -15728,53 +15728,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33723},
+			pos:  position{line: 1100, col: 1, offset: 33767},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33746},
+				pos: position{line: 1101, col: 5, offset: 33790},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33746},
+					pos: position{line: 1101, col: 5, offset: 33790},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33746},
+							pos: position{line: 1101, col: 5, offset: 33790},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33807},
+							pos: position{line: 1104, col: 5, offset: 33851},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33808},
+								pos: position{line: 1104, col: 6, offset: 33852},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2482, col: 22, offset: 79848},
+										pos: position{line: 2482, col: 22, offset: 79892},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2482, col: 22, offset: 79848},
+											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2487, col: 31, offset: 80069},
+													pos:        position{line: 2487, col: 31, offset: 80113},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2487, col: 36, offset: 80074},
+													pos: position{line: 2487, col: 36, offset: 80118},
 													expr: &litMatcher{
-														pos:        position{line: 2487, col: 37, offset: 80075},
+														pos:        position{line: 2487, col: 37, offset: 80119},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2482, col: 49, offset: 79875},
+													pos:   position{line: 2482, col: 49, offset: 79919},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 13, offset: 89460},
+														pos: position{line: 2821, col: 13, offset: 89504},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2821, col: 13, offset: 89460},
+															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89460},
+																pos:        position{line: 2821, col: 13, offset: 89504},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15784,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15814,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -15825,36 +15825,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26368},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26368},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 740, col: 5, offset: 23628},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23628},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 740, col: 5, offset: 23628},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 740, col: 16, offset: 23639},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23639},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 740, col: 16, offset: 23639},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 740, col: 23, offset: 23646},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 740, col: 23, offset: 23646},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -15865,12 +15865,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 742, col: 8, offset: 23730},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -15879,28 +15879,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -15909,9 +15909,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -15920,46 +15920,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 821, col: 5, offset: 26399},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 831, col: 5, offset: 26685},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 831, col: 6, offset: 26686},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26686},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 831, col: 6, offset: 26686},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26628},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23628},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23628},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23628},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23639},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23639},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23639},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23646},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23646},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -15970,12 +15970,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23730},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -15984,28 +15984,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16014,9 +16014,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -16025,39 +16025,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 832, col: 5, offset: 26716},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16067,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16097,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -16114,35 +16114,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 822, col: 5, offset: 26433},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 828, col: 29, offset: 26628},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23628},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23628},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23628},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23639},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23639},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23639},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23646},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23646},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16153,12 +16153,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23730},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16167,28 +16167,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16197,9 +16197,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -16208,9 +16208,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -16223,49 +16223,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33904},
+							pos:   position{line: 1105, col: 5, offset: 33948},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33911},
+								pos:  position{line: 1105, col: 12, offset: 33955},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33930},
+							pos: position{line: 1106, col: 5, offset: 33974},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33931},
+								pos: position{line: 1106, col: 6, offset: 33975},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2482, col: 22, offset: 79848},
+										pos: position{line: 2482, col: 22, offset: 79892},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2482, col: 22, offset: 79848},
+											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2487, col: 31, offset: 80069},
+													pos:        position{line: 2487, col: 31, offset: 80113},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2487, col: 36, offset: 80074},
+													pos: position{line: 2487, col: 36, offset: 80118},
 													expr: &litMatcher{
-														pos:        position{line: 2487, col: 37, offset: 80075},
+														pos:        position{line: 2487, col: 37, offset: 80119},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2482, col: 49, offset: 79875},
+													pos:   position{line: 2482, col: 49, offset: 79919},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 13, offset: 89460},
+														pos: position{line: 2821, col: 13, offset: 89504},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2821, col: 13, offset: 89460},
+															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89460},
+																pos:        position{line: 2821, col: 13, offset: 89504},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16275,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16305,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -16316,36 +16316,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26368},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26368},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 740, col: 5, offset: 23628},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23628},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 740, col: 5, offset: 23628},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 740, col: 16, offset: 23639},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23639},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 740, col: 16, offset: 23639},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 740, col: 23, offset: 23646},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 740, col: 23, offset: 23646},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16356,12 +16356,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 742, col: 8, offset: 23730},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16370,28 +16370,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16400,9 +16400,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -16411,46 +16411,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 821, col: 5, offset: 26399},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 831, col: 5, offset: 26685},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 831, col: 6, offset: 26686},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26686},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 831, col: 6, offset: 26686},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26628},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23628},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23628},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23628},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23639},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23639},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23639},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23646},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23646},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16461,12 +16461,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23730},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -16516,39 +16516,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 832, col: 5, offset: 26716},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16558,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16588,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -16605,35 +16605,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 822, col: 5, offset: 26433},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 828, col: 29, offset: 26628},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23628},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23628},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23628},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23639},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23639},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23639},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23646},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23646},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16644,12 +16644,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23730},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16658,28 +16658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16688,9 +16688,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -16699,9 +16699,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -16714,41 +16714,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34027},
+							pos:   position{line: 1107, col: 5, offset: 34071},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34046},
+								pos: position{line: 1107, col: 24, offset: 34090},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34421},
+									pos: position{line: 1118, col: 5, offset: 34465},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34421},
+										pos: position{line: 1118, col: 5, offset: 34465},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34421},
+												pos: position{line: 1118, col: 5, offset: 34465},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34422},
+													pos:        position{line: 1118, col: 6, offset: 34466},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34430},
+												pos:   position{line: 1119, col: 5, offset: 34474},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34686},
+													pos: position{line: 1125, col: 20, offset: 34730},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34686},
+														pos: position{line: 1125, col: 20, offset: 34730},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34686},
+																pos: position{line: 1125, col: 20, offset: 34730},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16757,37 +16757,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34693},
+																pos:   position{line: 1125, col: 27, offset: 34737},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34702},
+																	pos: position{line: 1125, col: 36, offset: 34746},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34815},
+																		pos: position{line: 1130, col: 5, offset: 34859},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34815},
+																			pos: position{line: 1130, col: 5, offset: 34859},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34815},
+																					pos:   position{line: 1130, col: 5, offset: 34859},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34824},
+																						pos: position{line: 1130, col: 14, offset: 34868},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35204},
+																							pos: position{line: 1141, col: 5, offset: 35248},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35204},
+																								pos: position{line: 1141, col: 5, offset: 35248},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35204},
+																										pos:   position{line: 1141, col: 5, offset: 35248},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35211},
+																											pos: position{line: 1141, col: 12, offset: 35255},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35211},
+																												pos: position{line: 1141, col: 12, offset: 35255},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35211},
+																													pos:        position{line: 1141, col: 12, offset: 35255},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16797,12 +16797,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35291},
+																										pos: position{line: 1144, col: 5, offset: 35335},
 																										expr: &actionExpr{
-																											pos: position{line: 2875, col: 10, offset: 90934},
+																											pos: position{line: 2875, col: 10, offset: 90978},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2875, col: 10, offset: 90934},
+																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16811,17 +16811,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35302},
+																										pos:   position{line: 1145, col: 5, offset: 35346},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35308},
+																											pos: position{line: 1145, col: 11, offset: 35352},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35309},
+																												pos: position{line: 1145, col: 12, offset: 35353},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35309},
+																													pos: position{line: 1145, col: 12, offset: 35353},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35309},
+																														pos:        position{line: 1145, col: 12, offset: 35353},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -16832,12 +16832,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35390},
+																										pos: position{line: 1148, col: 5, offset: 35434},
 																										expr: &actionExpr{
-																											pos: position{line: 2875, col: 10, offset: 90934},
+																											pos: position{line: 2875, col: 10, offset: 90978},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2875, col: 10, offset: 90934},
+																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16846,17 +16846,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35401},
+																										pos:   position{line: 1149, col: 5, offset: 35445},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35407},
+																											pos: position{line: 1149, col: 11, offset: 35451},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35408},
+																												pos: position{line: 1149, col: 12, offset: 35452},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35408},
+																													pos: position{line: 1149, col: 12, offset: 35452},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35408},
+																														pos:        position{line: 1149, col: 12, offset: 35452},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -16867,12 +16867,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35487},
+																										pos: position{line: 1152, col: 5, offset: 35531},
 																										expr: &actionExpr{
-																											pos: position{line: 2875, col: 10, offset: 90934},
+																											pos: position{line: 2875, col: 10, offset: 90978},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2875, col: 10, offset: 90934},
+																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16886,38 +16886,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34850},
+																					pos:   position{line: 1130, col: 40, offset: 34894},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34856},
+																						pos: position{line: 1130, col: 46, offset: 34900},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35609},
+																							pos: position{line: 1158, col: 5, offset: 35653},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35609},
+																								pos: position{line: 1158, col: 5, offset: 35653},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2892, col: 11, offset: 91268},
+																										pos: position{line: 2892, col: 11, offset: 91312},
 																										expr: &anyMatcher{
-																											line: 2892, col: 13, offset: 91270,
+																											line: 2892, col: 13, offset: 91314,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35621},
+																										pos:        position{line: 1159, col: 5, offset: 35665},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35630},
+																										pos:   position{line: 1160, col: 5, offset: 35674},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35637},
+																											pos: position{line: 1160, col: 12, offset: 35681},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35638},
+																												pos: position{line: 1160, col: 13, offset: 35682},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35638},
+																													pos:        position{line: 1160, col: 13, offset: 35682},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -16927,7 +16927,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35698},
+																										pos:        position{line: 1163, col: 5, offset: 35742},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -16938,12 +16938,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34879},
+																					pos: position{line: 1130, col: 69, offset: 34923},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16952,21 +16952,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34886},
+																					pos: position{line: 1130, col: 76, offset: 34930},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34886},
+																						pos:        position{line: 1130, col: 76, offset: 34930},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34891},
+																					pos: position{line: 1130, col: 81, offset: 34935},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16975,7 +16975,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34903},
+																					pos: position{line: 1131, col: 5, offset: 34947},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -16984,28 +16984,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -17026,41 +17026,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34460},
+												pos: position{line: 1120, col: 5, offset: 34504},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34461},
+													pos: position{line: 1120, col: 6, offset: 34505},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2482, col: 22, offset: 79848},
+															pos: position{line: 2482, col: 22, offset: 79892},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2482, col: 22, offset: 79848},
+																pos: position{line: 2482, col: 22, offset: 79892},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2487, col: 31, offset: 80069},
+																		pos:        position{line: 2487, col: 31, offset: 80113},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2487, col: 36, offset: 80074},
+																		pos: position{line: 2487, col: 36, offset: 80118},
 																		expr: &litMatcher{
-																			pos:        position{line: 2487, col: 37, offset: 80075},
+																			pos:        position{line: 2487, col: 37, offset: 80119},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2482, col: 49, offset: 79875},
+																		pos:   position{line: 2482, col: 49, offset: 79919},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 13, offset: 89460},
+																			pos: position{line: 2821, col: 13, offset: 89504},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2821, col: 13, offset: 89460},
+																				pos: position{line: 2821, col: 13, offset: 89504},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 13, offset: 89460},
+																					pos:        position{line: 2821, col: 13, offset: 89504},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17070,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17100,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -17111,36 +17111,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26324},
+															pos: position{line: 820, col: 5, offset: 26368},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26324},
+																pos: position{line: 820, col: 5, offset: 26368},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 740, col: 5, offset: 23628},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23628},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23584},
+																					pos:   position{line: 740, col: 5, offset: 23628},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 16, offset: 23639},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23639},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23595},
+																									pos:        position{line: 740, col: 16, offset: 23639},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23602},
+																									pos: position{line: 740, col: 23, offset: 23646},
 																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23602},
+																										pos:        position{line: 740, col: 23, offset: 23646},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17151,12 +17151,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23686},
+																					pos: position{line: 742, col: 8, offset: 23730},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17165,28 +17165,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17195,9 +17195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -17206,46 +17206,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26355},
+																		pos:   position{line: 821, col: 5, offset: 26399},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26641},
+																			pos: position{line: 831, col: 5, offset: 26685},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26642},
+																				pos: position{line: 831, col: 6, offset: 26686},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26642},
+																					pos: position{line: 831, col: 6, offset: 26686},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26642},
+																							pos: position{line: 831, col: 6, offset: 26686},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26584},
+																								pos: position{line: 828, col: 29, offset: 26628},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 740, col: 5, offset: 23628},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23584},
+																											pos: position{line: 740, col: 5, offset: 23628},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23584},
+																													pos:   position{line: 740, col: 5, offset: 23628},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 740, col: 16, offset: 23639},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23595},
+																															pos: position{line: 740, col: 16, offset: 23639},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23595},
+																																	pos:        position{line: 740, col: 16, offset: 23639},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23602},
+																																	pos: position{line: 740, col: 23, offset: 23646},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23602},
+																																		pos:        position{line: 740, col: 23, offset: 23646},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17256,12 +17256,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23686},
+																													pos: position{line: 742, col: 8, offset: 23730},
 																													expr: &actionExpr{
-																														pos: position{line: 2875, col: 10, offset: 90934},
+																														pos: position{line: 2875, col: 10, offset: 90978},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2875, col: 10, offset: 90934},
+																															pos:        position{line: 2875, col: 10, offset: 90978},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17270,28 +17270,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2897, col: 8, offset: 91332},
+																													pos: position{line: 2897, col: 8, offset: 91376},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2884, col: 12, offset: 91105},
+																															pos: position{line: 2884, col: 12, offset: 91149},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2884, col: 13, offset: 91106},
+																																pos: position{line: 2884, col: 13, offset: 91150},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 13, offset: 91106},
+																																		pos:        position{line: 2884, col: 13, offset: 91150},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 20, offset: 91113},
+																																		pos:        position{line: 2884, col: 20, offset: 91157},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 29, offset: 91122},
+																																		pos:        position{line: 2884, col: 29, offset: 91166},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17300,9 +17300,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2894, col: 8, offset: 91282},
+																															pos: position{line: 2894, col: 8, offset: 91326},
 																															expr: &anyMatcher{
-																																line: 2894, col: 9, offset: 91283,
+																																line: 2894, col: 9, offset: 91327,
 																															},
 																														},
 																													},
@@ -17311,39 +17311,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26672},
+																							pos:   position{line: 832, col: 5, offset: 26716},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26088},
+																								pos: position{line: 811, col: 5, offset: 26132},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26088},
+																									pos: position{line: 811, col: 5, offset: 26132},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2892, col: 11, offset: 91268},
+																											pos: position{line: 2892, col: 11, offset: 91312},
 																											expr: &anyMatcher{
-																												line: 2892, col: 13, offset: 91270,
+																												line: 2892, col: 13, offset: 91314,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26163},
+																											pos:   position{line: 812, col: 5, offset: 26207},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2821, col: 13, offset: 89460},
+																												pos: position{line: 2821, col: 13, offset: 89504},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2821, col: 13, offset: 89460},
+																													pos: position{line: 2821, col: 13, offset: 89504},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2821, col: 13, offset: 89460},
+																														pos:        position{line: 2821, col: 13, offset: 89504},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -17400,35 +17400,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26389},
+																		pos: position{line: 822, col: 5, offset: 26433},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26628},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23628},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23628},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23628},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23639},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23639},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23639},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23646},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23646},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17439,12 +17439,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23730},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17453,28 +17453,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17483,9 +17483,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -17494,9 +17494,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -17509,23 +17509,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34535},
+												pos:   position{line: 1121, col: 5, offset: 34579},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34544},
+													pos: position{line: 1121, col: 14, offset: 34588},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35887},
+														pos: position{line: 1169, col: 21, offset: 35931},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35887},
+															pos: position{line: 1169, col: 21, offset: 35931},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35887},
+																	pos: position{line: 1169, col: 21, offset: 35931},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17534,55 +17534,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35894},
+																	pos: position{line: 1169, col: 28, offset: 35938},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35895},
+																		pos:        position{line: 1169, col: 29, offset: 35939},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35899},
+																	pos:   position{line: 1169, col: 33, offset: 35943},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35918},
+																		pos: position{line: 1170, col: 9, offset: 35962},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35919},
+																				pos: position{line: 1170, col: 10, offset: 35963},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35919},
+																					pos: position{line: 1170, col: 10, offset: 35963},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35919},
+																							pos:   position{line: 1170, col: 10, offset: 35963},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36436},
+																								pos: position{line: 1179, col: 27, offset: 36480},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36436},
+																										pos: position{line: 1179, col: 27, offset: 36480},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36436},
+																											pos: position{line: 1179, col: 27, offset: 36480},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36436},
+																													pos:        position{line: 1179, col: 27, offset: 36480},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36441},
+																													pos:        position{line: 1179, col: 32, offset: 36485},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36447},
+																													pos: position{line: 1179, col: 38, offset: 36491},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36447},
+																														pos:        position{line: 1179, col: 38, offset: 36491},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17593,31 +17593,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36495},
+																										pos: position{line: 1181, col: 5, offset: 36539},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36495},
+																											pos: position{line: 1181, col: 5, offset: 36539},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36495},
+																													pos: position{line: 1181, col: 5, offset: 36539},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36495},
+																														pos:        position{line: 1181, col: 5, offset: 36539},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36501},
+																													pos:        position{line: 1181, col: 11, offset: 36545},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36507},
+																													pos: position{line: 1181, col: 17, offset: 36551},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36507},
+																														pos:        position{line: 1181, col: 17, offset: 36551},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17625,12 +17625,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36518},
+																													pos: position{line: 1181, col: 28, offset: 36562},
 																													expr: &actionExpr{
-																														pos: position{line: 2875, col: 10, offset: 90934},
+																														pos: position{line: 2875, col: 10, offset: 90978},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2875, col: 10, offset: 90934},
+																															pos:        position{line: 2875, col: 10, offset: 90978},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17639,9 +17639,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36525},
+																													pos: position{line: 1181, col: 35, offset: 36569},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36526},
+																														pos:        position{line: 1181, col: 36, offset: 36570},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17654,26 +17654,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35954},
+																							pos: position{line: 1170, col: 45, offset: 35998},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35954},
+																								pos:        position{line: 1170, col: 45, offset: 35998},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 35959},
+																							pos:   position{line: 1170, col: 50, offset: 36003},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 35967},
+																								pos: position{line: 1170, col: 58, offset: 36011},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1185, col: 25, offset: 36634},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36590},
+																										pos: position{line: 1185, col: 25, offset: 36634},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36590},
+																											pos:        position{line: 1185, col: 25, offset: 36634},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17684,26 +17684,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 35991},
+																							pos: position{line: 1170, col: 82, offset: 36035},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 35991},
+																								pos:        position{line: 1170, col: 82, offset: 36035},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 35996},
+																							pos:   position{line: 1170, col: 87, offset: 36040},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36006},
+																								pos: position{line: 1170, col: 97, offset: 36050},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
+																									pos: position{line: 1189, col: 27, offset: 36706},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1189, col: 27, offset: 36706},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1189, col: 27, offset: 36706},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17717,21 +17717,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36124},
+																				pos: position{line: 1172, col: 15, offset: 36168},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36124},
+																					pos: position{line: 1172, col: 15, offset: 36168},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36124},
+																							pos:   position{line: 1172, col: 15, offset: 36168},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36590},
+																								pos: position{line: 1185, col: 25, offset: 36634},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1185, col: 25, offset: 36634},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36590},
+																										pos:        position{line: 1185, col: 25, offset: 36634},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17741,26 +17741,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36155},
+																							pos: position{line: 1172, col: 46, offset: 36199},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36155},
+																								pos:        position{line: 1172, col: 46, offset: 36199},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36160},
+																							pos:   position{line: 1172, col: 51, offset: 36204},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36170},
+																								pos: position{line: 1172, col: 61, offset: 36214},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
+																									pos: position{line: 1189, col: 27, offset: 36706},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1189, col: 27, offset: 36706},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1189, col: 27, offset: 36706},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17777,28 +17777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -17825,40 +17825,40 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34081},
+							pos:   position{line: 1108, col: 5, offset: 34125},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34095},
+								pos: position{line: 1108, col: 19, offset: 34139},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34096},
+									pos: position{line: 1108, col: 20, offset: 34140},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34096},
+											pos:  position{line: 1108, col: 20, offset: 34140},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10954},
 											run: (*parser).callonDocumentHeader471,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 360, col: 19, offset: 10954},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 360, col: 19, offset: 10954},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 360, col: 24, offset: 10959},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															run: (*parser).callonDocumentHeader475,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9780},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -17866,9 +17866,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9791},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -17881,18 +17881,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 360, col: 45, offset: 10980},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 360, col: 49, offset: 10984},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +17901,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +17931,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -17942,28 +17942,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11075},
 											run: (*parser).callonDocumentHeader492,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 362, col: 9, offset: 11075},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 362, col: 9, offset: 11075},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 362, col: 13, offset: 11079},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															run: (*parser).callonDocumentHeader496,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9780},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -17971,9 +17971,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9791},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -17986,18 +17986,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 362, col: 34, offset: 11100},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 362, col: 39, offset: 11105},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 10, offset: 90934},
+															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 10, offset: 90934},
+																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18006,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18036,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -18047,36 +18047,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2482, col: 22, offset: 79848},
+											pos: position{line: 2482, col: 22, offset: 79892},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2482, col: 22, offset: 79848},
+												pos: position{line: 2482, col: 22, offset: 79892},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2487, col: 31, offset: 80069},
+														pos:        position{line: 2487, col: 31, offset: 80113},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2487, col: 36, offset: 80074},
+														pos: position{line: 2487, col: 36, offset: 80118},
 														expr: &litMatcher{
-															pos:        position{line: 2487, col: 37, offset: 80075},
+															pos:        position{line: 2487, col: 37, offset: 80119},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2482, col: 49, offset: 79875},
+														pos:   position{line: 2482, col: 49, offset: 79919},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2821, col: 13, offset: 89460},
+															pos: position{line: 2821, col: 13, offset: 89504},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2821, col: 13, offset: 89460},
+																pos: position{line: 2821, col: 13, offset: 89504},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2821, col: 13, offset: 89460},
+																	pos:        position{line: 2821, col: 13, offset: 89504},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18086,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -18127,36 +18127,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26368},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 820, col: 5, offset: 26368},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23628},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23628},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23628},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23639},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23639},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23639},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23646},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23646},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18167,12 +18167,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23730},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18181,28 +18181,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18211,9 +18211,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -18222,46 +18222,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 821, col: 5, offset: 26399},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 831, col: 5, offset: 26685},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26686},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 831, col: 6, offset: 26686},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 831, col: 6, offset: 26686},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 828, col: 29, offset: 26628},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23628},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 740, col: 5, offset: 23628},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 740, col: 5, offset: 23628},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23639},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 740, col: 16, offset: 23639},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 740, col: 16, offset: 23639},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 740, col: 23, offset: 23646},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 740, col: 23, offset: 23646},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18272,12 +18272,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 742, col: 8, offset: 23730},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18286,28 +18286,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18316,9 +18316,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -18327,39 +18327,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 832, col: 5, offset: 26716},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26132},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26207},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2821, col: 13, offset: 89460},
+																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2821, col: 13, offset: 89460},
+																										pos:        position{line: 2821, col: 13, offset: 89504},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -18416,35 +18416,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 822, col: 5, offset: 26433},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 828, col: 29, offset: 26628},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23628},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 740, col: 5, offset: 23628},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
+																				pos:   position{line: 740, col: 5, offset: 23628},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23639},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 16, offset: 23639},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
+																								pos:        position{line: 740, col: 16, offset: 23639},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
+																								pos: position{line: 740, col: 23, offset: 23646},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
+																									pos:        position{line: 740, col: 23, offset: 23646},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18455,12 +18455,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
+																				pos: position{line: 742, col: 8, offset: 23730},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18469,28 +18469,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91332},
+																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91105},
+																						pos: position{line: 2884, col: 12, offset: 91149},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91106},
+																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91106},
+																									pos:        position{line: 2884, col: 13, offset: 91150},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91113},
+																									pos:        position{line: 2884, col: 20, offset: 91157},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91122},
+																									pos:        position{line: 2884, col: 29, offset: 91166},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18499,9 +18499,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -18510,9 +18510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -18531,26 +18531,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34293},
+			pos:  position{line: 1112, col: 1, offset: 34337},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34315},
+				pos: position{line: 1113, col: 5, offset: 34359},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34315},
+					pos: position{line: 1113, col: 5, offset: 34359},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34315},
+							pos:        position{line: 1113, col: 5, offset: 34359},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2879, col: 11, offset: 90995},
+							pos: position{line: 2879, col: 11, offset: 91039},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2879, col: 11, offset: 90995},
+								pos: position{line: 2879, col: 11, offset: 91039},
 								expr: &charClassMatcher{
-									pos:        position{line: 2879, col: 11, offset: 90995},
+									pos:        position{line: 2879, col: 11, offset: 91039},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18559,36 +18559,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34326},
+							pos:   position{line: 1113, col: 16, offset: 34370},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34333},
+								pos:  position{line: 1113, col: 23, offset: 34377},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18597,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -18610,23 +18610,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35173},
+			pos:  position{line: 1140, col: 1, offset: 35217},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35204},
+				pos: position{line: 1141, col: 5, offset: 35248},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35204},
+					pos: position{line: 1141, col: 5, offset: 35248},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35204},
+							pos:   position{line: 1141, col: 5, offset: 35248},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35211},
+								pos: position{line: 1141, col: 12, offset: 35255},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35211},
+									pos: position{line: 1141, col: 12, offset: 35255},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35211},
+										pos:        position{line: 1141, col: 12, offset: 35255},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18636,12 +18636,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35291},
+							pos: position{line: 1144, col: 5, offset: 35335},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18650,17 +18650,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35302},
+							pos:   position{line: 1145, col: 5, offset: 35346},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35308},
+								pos: position{line: 1145, col: 11, offset: 35352},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35309},
+									pos: position{line: 1145, col: 12, offset: 35353},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35309},
+										pos: position{line: 1145, col: 12, offset: 35353},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35309},
+											pos:        position{line: 1145, col: 12, offset: 35353},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18671,12 +18671,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35390},
+							pos: position{line: 1148, col: 5, offset: 35434},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18685,17 +18685,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35401},
+							pos:   position{line: 1149, col: 5, offset: 35445},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35407},
+								pos: position{line: 1149, col: 11, offset: 35451},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35408},
+									pos: position{line: 1149, col: 12, offset: 35452},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35408},
+										pos: position{line: 1149, col: 12, offset: 35452},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35408},
+											pos:        position{line: 1149, col: 12, offset: 35452},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18706,12 +18706,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35487},
+							pos: position{line: 1152, col: 5, offset: 35531},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18725,28 +18725,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39216},
+			pos:  position{line: 1265, col: 1, offset: 39260},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39237},
+				pos: position{line: 1266, col: 5, offset: 39281},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39237},
+					pos: position{line: 1266, col: 5, offset: 39281},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39237},
+							pos: position{line: 1266, col: 5, offset: 39281},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39296},
+							pos:        position{line: 1269, col: 5, offset: 39340},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39303},
+							pos:   position{line: 1269, col: 12, offset: 39347},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39315},
+								pos:  position{line: 1269, col: 24, offset: 39359},
 								name: "InlineAttributes",
 							},
 						},
@@ -18756,33 +18756,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39603},
+			pos:  position{line: 1276, col: 1, offset: 39647},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39622},
+				pos: position{line: 1277, col: 5, offset: 39666},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39622},
+					pos: position{line: 1277, col: 5, offset: 39666},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39622},
+							pos: position{line: 1277, col: 5, offset: 39666},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39681},
+							pos:        position{line: 1280, col: 5, offset: 39725},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39689},
+							pos:   position{line: 1280, col: 13, offset: 39733},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 7, offset: 90586},
+								pos: position{line: 2860, col: 7, offset: 90630},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2860, col: 7, offset: 90586},
+									pos: position{line: 2860, col: 7, offset: 90630},
 									expr: &charClassMatcher{
-										pos:        position{line: 2860, col: 7, offset: 90586},
+										pos:        position{line: 2860, col: 7, offset: 90630},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18792,10 +18792,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39697},
+							pos:   position{line: 1280, col: 21, offset: 39741},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39709},
+								pos:  position{line: 1280, col: 33, offset: 39753},
 								name: "InlineAttributes",
 							},
 						},
@@ -18805,29 +18805,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40008},
+			pos:  position{line: 1287, col: 1, offset: 40052},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40021},
+				pos: position{line: 1287, col: 14, offset: 40065},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40021},
+					pos: position{line: 1287, col: 14, offset: 40065},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40021},
+							pos:        position{line: 1287, col: 14, offset: 40065},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40026},
+							pos:   position{line: 1287, col: 19, offset: 40070},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40032},
+								pos:  position{line: 1287, col: 25, offset: 40076},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40050},
+							pos:        position{line: 1287, col: 43, offset: 40094},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -18838,25 +18838,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40119},
+			pos:  position{line: 1291, col: 1, offset: 40163},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40139},
+				pos: position{line: 1291, col: 21, offset: 40183},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40139},
+					pos:   position{line: 1291, col: 21, offset: 40183},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40148},
+						pos: position{line: 1291, col: 30, offset: 40192},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40149},
+							pos: position{line: 1291, col: 31, offset: 40193},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2769, col: 14, offset: 88103},
+									pos: position{line: 2769, col: 14, offset: 88147},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2769, col: 14, offset: 88103},
+										pos: position{line: 2769, col: 14, offset: 88147},
 										expr: &charClassMatcher{
-											pos:        position{line: 2769, col: 14, offset: 88103},
+											pos:        position{line: 2769, col: 14, offset: 88147},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18865,14 +18865,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40161},
+									pos:  position{line: 1291, col: 43, offset: 40205},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2875, col: 10, offset: 90934},
+									pos: position{line: 2875, col: 10, offset: 90978},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2875, col: 10, offset: 90934},
+										pos:        position{line: 2875, col: 10, offset: 90978},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +18880,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2469, col: 5, offset: 79394},
+									pos: position{line: 2469, col: 5, offset: 79438},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2469, col: 5, offset: 79394},
+										pos: position{line: 2469, col: 5, offset: 79438},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2469, col: 5, offset: 79394},
+												pos: position{line: 2469, col: 5, offset: 79438},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2472, col: 5, offset: 79470},
+												pos:   position{line: 2472, col: 5, offset: 79514},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2473, col: 9, offset: 79488},
+													pos: position{line: 2473, col: 9, offset: 79532},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2473, col: 10, offset: 79489},
+														pos:        position{line: 2473, col: 10, offset: 79533},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18908,27 +18908,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 36972},
+									pos: position{line: 1198, col: 23, offset: 37016},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1198, col: 23, offset: 37016},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1196, col: 32, offset: 36984},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37000},
+												pos:   position{line: 1198, col: 51, offset: 37044},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37005},
+													pos: position{line: 1198, col: 56, offset: 37049},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1198, col: 56, offset: 37049},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37005},
+															pos:        position{line: 1198, col: 56, offset: 37049},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -18938,7 +18938,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1196, col: 32, offset: 36984},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -18947,22 +18947,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40222},
+									pos: position{line: 1291, col: 104, offset: 40266},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40223},
+										pos: position{line: 1291, col: 105, offset: 40267},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40223},
+												pos: position{line: 1291, col: 105, offset: 40267},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40224},
+													pos:        position{line: 1291, col: 106, offset: 40268},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40229,
+												line: 1291, col: 111, offset: 40273,
 											},
 										},
 									},
@@ -18975,65 +18975,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 40938},
+			pos:  position{line: 1311, col: 1, offset: 40982},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 40957},
+				pos: position{line: 1312, col: 5, offset: 41001},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 40957},
+					pos: position{line: 1312, col: 5, offset: 41001},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1312, col: 5, offset: 40957},
+							pos:        position{line: 1312, col: 5, offset: 41001},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 15, offset: 40967},
+							pos:   position{line: 1312, col: 15, offset: 41011},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2833, col: 13, offset: 89693},
+								pos: position{line: 2833, col: 13, offset: 89737},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2833, col: 13, offset: 89693},
+									pos: position{line: 2833, col: 13, offset: 89737},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2833, col: 13, offset: 89693},
+											pos:   position{line: 2833, col: 13, offset: 89737},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2833, col: 20, offset: 89700},
+												pos: position{line: 2833, col: 20, offset: 89744},
 												expr: &actionExpr{
-													pos: position{line: 2841, col: 11, offset: 89939},
+													pos: position{line: 2841, col: 11, offset: 89983},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2841, col: 12, offset: 89940},
+														pos: position{line: 2841, col: 12, offset: 89984},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2841, col: 12, offset: 89940},
+																pos:        position{line: 2841, col: 12, offset: 89984},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 24, offset: 89952},
+																pos:        position{line: 2841, col: 24, offset: 89996},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 37, offset: 89965},
+																pos:        position{line: 2841, col: 37, offset: 90009},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 48, offset: 89976},
+																pos:        position{line: 2841, col: 48, offset: 90020},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 59, offset: 89987},
+																pos:        position{line: 2841, col: 59, offset: 90031},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19044,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2833, col: 30, offset: 89710},
+											pos:   position{line: 2833, col: 30, offset: 89754},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2846, col: 5, offset: 90051},
+												pos: position{line: 2846, col: 5, offset: 90095},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2846, col: 5, offset: 90051},
+													pos:   position{line: 2846, col: 5, offset: 90095},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2846, col: 14, offset: 90060},
+														pos: position{line: 2846, col: 14, offset: 90104},
 														expr: &choiceExpr{
-															pos: position{line: 2847, col: 9, offset: 90070},
+															pos: position{line: 2847, col: 9, offset: 90114},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2847, col: 9, offset: 90070},
+																		pos: position{line: 2847, col: 9, offset: 90114},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				expr: &litMatcher{
-																					pos:        position{line: 2847, col: 10, offset: 90071},
+																					pos:        position{line: 2847, col: 10, offset: 90115},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2848, col: 9, offset: 90099},
+																				pos: position{line: 2848, col: 9, offset: 90143},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90100},
+																					pos:        position{line: 2848, col: 10, offset: 90144},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19086,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2851, col: 11, offset: 90312},
+																	pos: position{line: 2851, col: 11, offset: 90356},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2851, col: 11, offset: 90312},
+																			pos:        position{line: 2851, col: 11, offset: 90356},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2851, col: 19, offset: 90320},
+																			pos: position{line: 2851, col: 19, offset: 90364},
 																			expr: &seqExpr{
-																				pos: position{line: 2851, col: 21, offset: 90322},
+																				pos: position{line: 2851, col: 21, offset: 90366},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19115,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2851, col: 28, offset: 90329},
+																						pos: position{line: 2851, col: 28, offset: 90373},
 																						expr: &notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -19129,44 +19129,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 636, col: 5, offset: 20153},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20153},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 639, col: 5, offset: 20225},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 639, col: 14, offset: 20234},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20363},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20363},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20363},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20371},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonImageBlock46,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19174,9 +19174,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19189,7 +19189,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20390},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19198,28 +19198,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20631},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20631},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20631},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20635},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonImageBlock56,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19227,9 +19227,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19242,7 +19242,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20654},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19251,28 +19251,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 658, col: 25, offset: 20835},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 658, col: 25, offset: 20835},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 658, col: 25, offset: 20835},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 658, col: 37, offset: 20847},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonImageBlock66,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19280,9 +19280,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19295,33 +19295,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 658, col: 56, offset: 20866},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 658, col: 62, offset: 20872},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21167},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21167},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21167},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21171},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21178},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19329,12 +19329,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21232},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21232},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21232},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19351,7 +19351,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 658, col: 78, offset: 20888},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19360,28 +19360,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 662, col: 25, offset: 21006},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 662, col: 25, offset: 21006},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 662, col: 25, offset: 21006},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 662, col: 38, offset: 21019},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonImageBlock88,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19389,9 +19389,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19404,33 +19404,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 662, col: 57, offset: 21038},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 662, col: 63, offset: 21044},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21167},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21167},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21167},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21171},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21178},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19438,12 +19438,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21232},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21232},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21232},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19460,7 +19460,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 662, col: 79, offset: 21060},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19475,27 +19475,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1198, col: 23, offset: 37016},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1198, col: 23, offset: 37016},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36984},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1198, col: 51, offset: 37044},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1198, col: 56, offset: 37049},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1198, col: 56, offset: 37049},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1198, col: 56, offset: 37049},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19505,7 +19505,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36984},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19514,10 +19514,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2854, col: 11, offset: 90449},
+																	pos: position{line: 2854, col: 11, offset: 90493},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2854, col: 11, offset: 90449},
+																		pos:        position{line: 2854, col: 11, offset: 90493},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19534,20 +19534,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 31, offset: 40983},
+							pos:   position{line: 1312, col: 31, offset: 41027},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 43, offset: 40995},
+								pos:  position{line: 1312, col: 43, offset: 41039},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 61, offset: 41013},
+							pos: position{line: 1312, col: 61, offset: 41057},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19556,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19586,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -19599,74 +19599,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41230},
+			pos:  position{line: 1317, col: 1, offset: 41274},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41245},
+				pos: position{line: 1317, col: 16, offset: 41289},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41245},
+					pos: position{line: 1317, col: 16, offset: 41289},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41245},
+							pos:        position{line: 1317, col: 16, offset: 41289},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41254},
+							pos: position{line: 1317, col: 25, offset: 41298},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41255},
+								pos:        position{line: 1317, col: 26, offset: 41299},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41259},
+							pos:   position{line: 1317, col: 30, offset: 41303},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2833, col: 13, offset: 89693},
+								pos: position{line: 2833, col: 13, offset: 89737},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2833, col: 13, offset: 89693},
+									pos: position{line: 2833, col: 13, offset: 89737},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2833, col: 13, offset: 89693},
+											pos:   position{line: 2833, col: 13, offset: 89737},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2833, col: 20, offset: 89700},
+												pos: position{line: 2833, col: 20, offset: 89744},
 												expr: &actionExpr{
-													pos: position{line: 2841, col: 11, offset: 89939},
+													pos: position{line: 2841, col: 11, offset: 89983},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2841, col: 12, offset: 89940},
+														pos: position{line: 2841, col: 12, offset: 89984},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2841, col: 12, offset: 89940},
+																pos:        position{line: 2841, col: 12, offset: 89984},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 24, offset: 89952},
+																pos:        position{line: 2841, col: 24, offset: 89996},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 37, offset: 89965},
+																pos:        position{line: 2841, col: 37, offset: 90009},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 48, offset: 89976},
+																pos:        position{line: 2841, col: 48, offset: 90020},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 59, offset: 89987},
+																pos:        position{line: 2841, col: 59, offset: 90031},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19677,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2833, col: 30, offset: 89710},
+											pos:   position{line: 2833, col: 30, offset: 89754},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2846, col: 5, offset: 90051},
+												pos: position{line: 2846, col: 5, offset: 90095},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2846, col: 5, offset: 90051},
+													pos:   position{line: 2846, col: 5, offset: 90095},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2846, col: 14, offset: 90060},
+														pos: position{line: 2846, col: 14, offset: 90104},
 														expr: &choiceExpr{
-															pos: position{line: 2847, col: 9, offset: 90070},
+															pos: position{line: 2847, col: 9, offset: 90114},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2847, col: 9, offset: 90070},
+																		pos: position{line: 2847, col: 9, offset: 90114},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				expr: &litMatcher{
-																					pos:        position{line: 2847, col: 10, offset: 90071},
+																					pos:        position{line: 2847, col: 10, offset: 90115},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2848, col: 9, offset: 90099},
+																				pos: position{line: 2848, col: 9, offset: 90143},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90100},
+																					pos:        position{line: 2848, col: 10, offset: 90144},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19719,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2851, col: 11, offset: 90312},
+																	pos: position{line: 2851, col: 11, offset: 90356},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2851, col: 11, offset: 90312},
+																			pos:        position{line: 2851, col: 11, offset: 90356},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2851, col: 19, offset: 90320},
+																			pos: position{line: 2851, col: 19, offset: 90364},
 																			expr: &seqExpr{
-																				pos: position{line: 2851, col: 21, offset: 90322},
+																				pos: position{line: 2851, col: 21, offset: 90366},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19748,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2851, col: 28, offset: 90329},
+																						pos: position{line: 2851, col: 28, offset: 90373},
 																						expr: &notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -19762,44 +19762,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 636, col: 5, offset: 20153},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20153},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 639, col: 5, offset: 20225},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 639, col: 14, offset: 20234},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20363},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20363},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20363},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20371},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonInlineImage48,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19807,9 +19807,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19822,7 +19822,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20390},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19831,28 +19831,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20631},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20631},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20631},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20635},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonInlineImage58,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19860,9 +19860,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19875,7 +19875,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20654},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19884,28 +19884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 658, col: 25, offset: 20835},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 658, col: 25, offset: 20835},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 658, col: 25, offset: 20835},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 658, col: 37, offset: 20847},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonInlineImage68,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19913,9 +19913,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19928,33 +19928,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 658, col: 56, offset: 20866},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 658, col: 62, offset: 20872},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21167},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21167},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21167},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21171},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21178},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19962,12 +19962,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21232},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21232},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21232},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19984,7 +19984,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 658, col: 78, offset: 20888},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19993,28 +19993,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 662, col: 25, offset: 21006},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 662, col: 25, offset: 21006},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 662, col: 25, offset: 21006},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 662, col: 38, offset: 21019},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9780},
 																											run: (*parser).callonInlineImage90,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9780},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20022,9 +20022,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9791},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20037,33 +20037,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 662, col: 57, offset: 21038},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 662, col: 63, offset: 21044},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21167},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21167},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21167},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21171},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21178},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20071,12 +20071,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21232},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21232},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21232},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20093,7 +20093,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 662, col: 79, offset: 21060},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20108,27 +20108,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1198, col: 23, offset: 37016},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1198, col: 23, offset: 37016},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36984},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1198, col: 51, offset: 37044},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1198, col: 56, offset: 37049},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1198, col: 56, offset: 37049},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1198, col: 56, offset: 37049},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20138,7 +20138,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36984},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20147,10 +20147,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2854, col: 11, offset: 90449},
+																	pos: position{line: 2854, col: 11, offset: 90493},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2854, col: 11, offset: 90449},
+																		pos:        position{line: 2854, col: 11, offset: 90493},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20167,10 +20167,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41275},
+							pos:   position{line: 1317, col: 46, offset: 41319},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41287},
+								pos:  position{line: 1317, col: 58, offset: 41331},
 								name: "InlineAttributes",
 							},
 						},
@@ -20180,29 +20180,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41683},
+			pos:  position{line: 1324, col: 1, offset: 41727},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41697},
+				pos: position{line: 1324, col: 15, offset: 41741},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41697},
+					pos: position{line: 1324, col: 15, offset: 41741},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41697},
+							pos:        position{line: 1324, col: 15, offset: 41741},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41705},
+							pos:   position{line: 1324, col: 23, offset: 41749},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41711},
+								pos: position{line: 1324, col: 29, offset: 41755},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41711},
+									pos: position{line: 1324, col: 29, offset: 41755},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41711},
+										pos:        position{line: 1324, col: 29, offset: 41755},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20213,10 +20213,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41755},
+							pos:   position{line: 1324, col: 73, offset: 41799},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41767},
+								pos:  position{line: 1324, col: 85, offset: 41811},
 								name: "InlineAttributes",
 							},
 						},
@@ -20226,31 +20226,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42133},
+			pos:  position{line: 1331, col: 1, offset: 42177},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42151},
+				pos: position{line: 1331, col: 19, offset: 42195},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42151},
+					pos: position{line: 1331, col: 19, offset: 42195},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42151},
+							pos:        position{line: 1331, col: 19, offset: 42195},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42163},
+							pos:   position{line: 1331, col: 31, offset: 42207},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42167},
+								pos: position{line: 1331, col: 35, offset: 42211},
 								expr: &actionExpr{
-									pos: position{line: 2769, col: 14, offset: 88103},
+									pos: position{line: 2769, col: 14, offset: 88147},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2769, col: 14, offset: 88103},
+										pos: position{line: 2769, col: 14, offset: 88147},
 										expr: &charClassMatcher{
-											pos:        position{line: 2769, col: 14, offset: 88103},
+											pos:        position{line: 2769, col: 14, offset: 88147},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20261,21 +20261,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42182},
+							pos:        position{line: 1331, col: 50, offset: 42226},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42186},
+							pos:   position{line: 1331, col: 54, offset: 42230},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42196},
+								pos:  position{line: 1331, col: 64, offset: 42240},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42214},
+							pos:        position{line: 1331, col: 82, offset: 42258},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20286,17 +20286,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42371},
+			pos:  position{line: 1337, col: 1, offset: 42415},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42391},
+				pos: position{line: 1337, col: 21, offset: 42435},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42391},
+					pos:   position{line: 1337, col: 21, offset: 42435},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42400},
+						pos: position{line: 1337, col: 30, offset: 42444},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42401},
+							pos:  position{line: 1337, col: 31, offset: 42445},
 							name: "FootnoteElement",
 						},
 					},
@@ -20305,44 +20305,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42493},
+			pos:  position{line: 1341, col: 1, offset: 42537},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42517},
+				pos: position{line: 1342, col: 5, offset: 42561},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42517},
+					pos: position{line: 1342, col: 5, offset: 42561},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42517},
+							pos: position{line: 1342, col: 5, offset: 42561},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42518},
+								pos:        position{line: 1342, col: 6, offset: 42562},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42527},
+							pos:   position{line: 1343, col: 5, offset: 42571},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42545},
+								pos: position{line: 1344, col: 9, offset: 42589},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2774, col: 5, offset: 88176},
+										pos: position{line: 2774, col: 5, offset: 88220},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2774, col: 5, offset: 88176},
+											pos: position{line: 2774, col: 5, offset: 88220},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2774, col: 5, offset: 88176},
+													pos:   position{line: 2774, col: 5, offset: 88220},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2774, col: 11, offset: 88182},
+														pos: position{line: 2774, col: 11, offset: 88226},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2774, col: 11, offset: 88182},
+															pos: position{line: 2774, col: 11, offset: 88226},
 															expr: &charClassMatcher{
-																pos:        position{line: 2774, col: 11, offset: 88182},
+																pos:        position{line: 2774, col: 11, offset: 88226},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20352,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2777, col: 5, offset: 88240},
+													pos: position{line: 2777, col: 5, offset: 88284},
 													expr: &seqExpr{
-														pos: position{line: 2778, col: 9, offset: 88251},
+														pos: position{line: 2778, col: 9, offset: 88295},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2778, col: 9, offset: 88251},
+																pos:        position{line: 2778, col: 9, offset: 88295},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2779, col: 9, offset: 88300},
+																pos: position{line: 2779, col: 9, offset: 88344},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2783, col: 5, offset: 88380},
+													pos: position{line: 2783, col: 5, offset: 88424},
 													expr: &seqExpr{
-														pos: position{line: 2784, col: 9, offset: 88391},
+														pos: position{line: 2784, col: 9, offset: 88435},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2784, col: 9, offset: 88391},
+																pos:        position{line: 2784, col: 9, offset: 88435},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2784, col: 13, offset: 88395},
+																pos:        position{line: 2784, col: 13, offset: 88439},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20394,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2879, col: 11, offset: 90995},
+										pos: position{line: 2879, col: 11, offset: 91039},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2879, col: 11, offset: 90995},
+											pos: position{line: 2879, col: 11, offset: 91039},
 											expr: &charClassMatcher{
-												pos:        position{line: 2879, col: 11, offset: 90995},
+												pos:        position{line: 2879, col: 11, offset: 91039},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20408,25 +20408,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80565},
+										pos: position{line: 2500, col: 5, offset: 80609},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80565},
+											pos: position{line: 2500, col: 5, offset: 80609},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80565},
+													pos: position{line: 2500, col: 5, offset: 80609},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2503, col: 5, offset: 80636},
+													pos:        position{line: 2503, col: 5, offset: 80680},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2503, col: 10, offset: 80641},
+													pos: position{line: 2503, col: 10, offset: 80685},
 													expr: &charClassMatcher{
-														pos:        position{line: 2503, col: 11, offset: 80642},
+														pos:        position{line: 2503, col: 11, offset: 80686},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20437,29 +20437,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2509, col: 5, offset: 80834},
+										pos: position{line: 2509, col: 5, offset: 80878},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2509, col: 5, offset: 80834},
+											pos: position{line: 2509, col: 5, offset: 80878},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2509, col: 5, offset: 80834},
+													pos: position{line: 2509, col: 5, offset: 80878},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80905},
+													pos: position{line: 2512, col: 5, offset: 80949},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2516, col: 5, offset: 81030},
+													pos:        position{line: 2516, col: 5, offset: 81074},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2516, col: 9, offset: 81034},
+													pos: position{line: 2516, col: 9, offset: 81078},
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 81035},
+														pos:        position{line: 2516, col: 10, offset: 81079},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20470,35 +20470,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42612},
+										pos:  position{line: 1347, col: 11, offset: 42656},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42628},
+										pos:  position{line: 1348, col: 11, offset: 42672},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2792, col: 5, offset: 88588},
+										pos: position{line: 2792, col: 5, offset: 88632},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2793, col: 9, offset: 88598},
+											pos: position{line: 2793, col: 9, offset: 88642},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2793, col: 10, offset: 88599},
+													pos:        position{line: 2793, col: 10, offset: 88643},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 13, offset: 88696},
+													pos: position{line: 2795, col: 13, offset: 88740},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2795, col: 13, offset: 88696},
+															pos: position{line: 2795, col: 13, offset: 88740},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2798, col: 13, offset: 88796},
+															pos:        position{line: 2798, col: 13, offset: 88840},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20506,20 +20506,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2798, col: 19, offset: 88802},
+													pos:        position{line: 2798, col: 19, offset: 88846},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 13, offset: 88840},
+													pos: position{line: 2801, col: 13, offset: 88884},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2801, col: 13, offset: 88840},
+															pos: position{line: 2801, col: 13, offset: 88884},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2804, col: 14, offset: 88933},
+															pos:        position{line: 2804, col: 14, offset: 88977},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20528,18 +20528,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 12, offset: 88977},
+													pos: position{line: 2806, col: 12, offset: 89021},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2806, col: 12, offset: 88977},
+															pos:        position{line: 2806, col: 12, offset: 89021},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2806, col: 16, offset: 88981},
+															pos: position{line: 2806, col: 16, offset: 89025},
 															expr: &litMatcher{
-																pos:        position{line: 2806, col: 17, offset: 88982},
+																pos:        position{line: 2806, col: 17, offset: 89026},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20551,36 +20551,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42701},
+										pos:  position{line: 1350, col: 11, offset: 42745},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37418},
+										pos: position{line: 1206, col: 5, offset: 37462},
 										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37418},
+											pos: position{line: 1206, col: 5, offset: 37462},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37418},
+													pos: position{line: 1206, col: 5, offset: 37462},
 													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37494},
+													pos:        position{line: 1209, col: 5, offset: 37538},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37502},
+													pos: position{line: 1210, col: 5, offset: 37546},
 													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37589},
+													pos: position{line: 1214, col: 5, offset: 37633},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20589,30 +20589,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37596},
+													pos: position{line: 1214, col: 12, offset: 37640},
 													expr: &choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20621,9 +20621,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -20633,44 +20633,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20153},
 										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20153},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20153},
 													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20225},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20234},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20363},
 																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20363},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20363},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20371},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonFootnoteElement80,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20678,9 +20678,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20693,7 +20693,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20390},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20702,28 +20702,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20631},
 																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20631},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20631},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20635},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonFootnoteElement90,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20731,9 +20731,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20746,7 +20746,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20654},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20755,28 +20755,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20835},
 																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20835},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20835},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20847},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonFootnoteElement100,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20784,9 +20784,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20799,33 +20799,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20866},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20872},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					run: (*parser).callonFootnoteElement107,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21171},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21178},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21178},
 																											run: (*parser).callonFootnoteElement112,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -20833,12 +20833,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											run: (*parser).callonFootnoteElement114,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21232},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -20855,7 +20855,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20888},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20864,28 +20864,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21006},
 																run: (*parser).callonFootnoteElement118,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21006},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 21006},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 21019},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonFootnoteElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20893,9 +20893,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20908,33 +20908,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21038},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21044},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					run: (*parser).callonFootnoteElement129,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21171},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21178},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21178},
 																											run: (*parser).callonFootnoteElement134,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -20942,12 +20942,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											run: (*parser).callonFootnoteElement136,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21232},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -20964,7 +20964,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21060},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20979,23 +20979,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2469, col: 5, offset: 79394},
+										pos: position{line: 2469, col: 5, offset: 79438},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2469, col: 5, offset: 79394},
+											pos: position{line: 2469, col: 5, offset: 79438},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2469, col: 5, offset: 79394},
+													pos: position{line: 2469, col: 5, offset: 79438},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 5, offset: 79470},
+													pos:   position{line: 2472, col: 5, offset: 79514},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2473, col: 9, offset: 79488},
+														pos: position{line: 2473, col: 9, offset: 79532},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2473, col: 10, offset: 79489},
+															pos:        position{line: 2473, col: 10, offset: 79533},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21007,25 +21007,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2884, col: 12, offset: 91105},
+										pos: position{line: 2884, col: 12, offset: 91149},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2884, col: 13, offset: 91106},
+											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2884, col: 13, offset: 91106},
+													pos:        position{line: 2884, col: 13, offset: 91150},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 20, offset: 91113},
+													pos:        position{line: 2884, col: 20, offset: 91157},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 29, offset: 91122},
+													pos:        position{line: 2884, col: 29, offset: 91166},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21034,10 +21034,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2814, col: 12, offset: 89242},
+										pos: position{line: 2814, col: 12, offset: 89286},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2814, col: 12, offset: 89242},
+											pos:        position{line: 2814, col: 12, offset: 89286},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21053,32 +21053,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44546},
+			pos:  position{line: 1389, col: 1, offset: 44590},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44566},
+				pos: position{line: 1389, col: 21, offset: 44610},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44566},
+						pos: position{line: 1389, col: 21, offset: 44610},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44566},
+							pos: position{line: 1389, col: 21, offset: 44610},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44566},
+									pos:        position{line: 1389, col: 21, offset: 44610},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44575},
+									pos:   position{line: 1389, col: 30, offset: 44619},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44583},
+										pos: position{line: 1389, col: 38, offset: 44627},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 44909},
+											pos: position{line: 1395, col: 30, offset: 44953},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 44909},
+												pos:        position{line: 1395, col: 30, offset: 44953},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21088,7 +21088,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44612},
+									pos:        position{line: 1389, col: 67, offset: 44656},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21097,34 +21097,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44716},
+						pos: position{line: 1391, col: 9, offset: 44760},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44716},
+							pos: position{line: 1391, col: 9, offset: 44760},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44716},
+									pos:        position{line: 1391, col: 9, offset: 44760},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44726},
+									pos:   position{line: 1391, col: 19, offset: 44770},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44734},
+										pos: position{line: 1391, col: 27, offset: 44778},
 										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44735},
+											pos: position{line: 1391, col: 28, offset: 44779},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44735},
+													pos:  position{line: 1391, col: 28, offset: 44779},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 44909},
+													pos: position{line: 1395, col: 30, offset: 44953},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 44909},
+														pos:        position{line: 1395, col: 30, offset: 44953},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21136,7 +21136,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44776},
+									pos:        position{line: 1391, col: 69, offset: 44820},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21149,75 +21149,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45165},
+			pos:  position{line: 1402, col: 1, offset: 45209},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45173},
+				pos: position{line: 1402, col: 9, offset: 45217},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45242},
+						pos: position{line: 1405, col: 5, offset: 45286},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45242},
+							pos: position{line: 1405, col: 5, offset: 45286},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45242},
+									pos:        position{line: 1405, col: 5, offset: 45286},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45251},
+									pos:   position{line: 1406, col: 5, offset: 45295},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 23, offset: 89820},
+										pos: position{line: 2837, col: 23, offset: 89864},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2837, col: 23, offset: 89820},
+											pos: position{line: 2837, col: 23, offset: 89864},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2837, col: 23, offset: 89820},
+													pos: position{line: 2837, col: 23, offset: 89864},
 													expr: &litMatcher{
-														pos:        position{line: 2837, col: 24, offset: 89821},
+														pos:        position{line: 2837, col: 24, offset: 89865},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2837, col: 28, offset: 89825},
+													pos:   position{line: 2837, col: 28, offset: 89869},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 11, offset: 89939},
+														pos: position{line: 2841, col: 11, offset: 89983},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2841, col: 12, offset: 89940},
+															pos: position{line: 2841, col: 12, offset: 89984},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2841, col: 12, offset: 89940},
+																	pos:        position{line: 2841, col: 12, offset: 89984},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 24, offset: 89952},
+																	pos:        position{line: 2841, col: 24, offset: 89996},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 37, offset: 89965},
+																	pos:        position{line: 2841, col: 37, offset: 90009},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 48, offset: 89976},
+																	pos:        position{line: 2841, col: 48, offset: 90020},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 59, offset: 89987},
+																	pos:        position{line: 2841, col: 59, offset: 90031},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21227,38 +21227,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2837, col: 44, offset: 89841},
+													pos:   position{line: 2837, col: 44, offset: 89885},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 5, offset: 90051},
+														pos: position{line: 2846, col: 5, offset: 90095},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2846, col: 5, offset: 90051},
+															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2846, col: 14, offset: 90060},
+																pos: position{line: 2846, col: 14, offset: 90104},
 																expr: &choiceExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2847, col: 9, offset: 90070},
+																			pos: position{line: 2847, col: 9, offset: 90114},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2847, col: 9, offset: 90070},
+																						pos: position{line: 2847, col: 9, offset: 90114},
 																						expr: &litMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90071},
+																							pos:        position{line: 2847, col: 10, offset: 90115},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2848, col: 9, offset: 90099},
+																						pos: position{line: 2848, col: 9, offset: 90143},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90100},
+																							pos:        position{line: 2848, col: 10, offset: 90144},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21269,27 +21269,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2851, col: 11, offset: 90312},
+																			pos: position{line: 2851, col: 11, offset: 90356},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2851, col: 11, offset: 90312},
+																					pos:        position{line: 2851, col: 11, offset: 90356},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2851, col: 19, offset: 90320},
+																					pos: position{line: 2851, col: 19, offset: 90364},
 																					expr: &seqExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2851, col: 21, offset: 90322},
+																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21298,11 +21298,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2851, col: 28, offset: 90329},
+																								pos: position{line: 2851, col: 28, offset: 90373},
 																								expr: &notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -21312,44 +21312,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20153},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20225},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20234},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20363},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20363},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20363},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20371},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21357,9 +21357,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21372,7 +21372,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20390},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21381,28 +21381,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20631},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20631},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20635},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21410,9 +21410,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21425,7 +21425,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20654},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21434,28 +21434,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20835},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20835},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20835},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20847},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21463,9 +21463,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21478,33 +21478,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20866},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20872},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21512,12 +21512,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21534,7 +21534,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20888},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21543,28 +21543,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21006},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21006},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21006},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21019},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21572,9 +21572,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21587,33 +21587,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21038},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21044},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21621,12 +21621,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21643,7 +21643,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21060},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21658,27 +21658,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 37016},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37044},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37049},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37049},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21688,7 +21688,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21697,10 +21697,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2854, col: 11, offset: 90449},
+																			pos: position{line: 2854, col: 11, offset: 90493},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 11, offset: 90449},
+																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21717,7 +21717,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45470},
+									pos:        position{line: 1411, col: 5, offset: 45514},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21726,38 +21726,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45183},
+						pos:  position{line: 1402, col: 19, offset: 45227},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45198},
+						pos:  position{line: 1402, col: 34, offset: 45242},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46463},
+						pos: position{line: 1440, col: 17, offset: 46507},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46463},
+							pos: position{line: 1440, col: 17, offset: 46507},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46463},
+									pos:   position{line: 1440, col: 17, offset: 46507},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46628},
+										pos: position{line: 1445, col: 5, offset: 46672},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46628},
+											pos: position{line: 1445, col: 5, offset: 46672},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46628},
+													pos:   position{line: 1445, col: 5, offset: 46672},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46635},
+														pos: position{line: 1445, col: 12, offset: 46679},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46635},
+															pos: position{line: 1445, col: 12, offset: 46679},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46635},
+																pos:        position{line: 1445, col: 12, offset: 46679},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21769,7 +21769,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46719},
+													pos: position{line: 1448, col: 5, offset: 46763},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21777,33 +21777,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46489},
+									pos:        position{line: 1440, col: 43, offset: 46533},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46493},
+									pos:   position{line: 1440, col: 47, offset: 46537},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47013},
+										pos: position{line: 1457, col: 23, offset: 47057},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47013},
+											pos: position{line: 1457, col: 23, offset: 47057},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47013},
+													pos:   position{line: 1457, col: 23, offset: 47057},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47021},
+														pos: position{line: 1457, col: 31, offset: 47065},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47021},
+															pos: position{line: 1457, col: 31, offset: 47065},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47021},
+																	pos: position{line: 1457, col: 31, offset: 47065},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47021},
+																		pos:        position{line: 1457, col: 31, offset: 47065},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21811,20 +21811,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47031},
+																	pos: position{line: 1457, col: 41, offset: 47075},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47032},
+																		pos: position{line: 1457, col: 42, offset: 47076},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47032},
+																				pos:        position{line: 1457, col: 42, offset: 47076},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47036},
+																				pos: position{line: 1457, col: 46, offset: 47080},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47036},
+																					pos:        position{line: 1457, col: 46, offset: 47080},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21840,7 +21840,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47097},
+													pos: position{line: 1460, col: 5, offset: 47141},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -21855,68 +21855,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45618},
+			pos:  position{line: 1417, col: 1, offset: 45662},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45654},
+				pos: position{line: 1419, col: 5, offset: 45698},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45654},
+						pos: position{line: 1419, col: 5, offset: 45698},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45654},
+							pos: position{line: 1419, col: 5, offset: 45698},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45654},
+									pos:        position{line: 1419, col: 5, offset: 45698},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45666},
+									pos:   position{line: 1419, col: 17, offset: 45710},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2833, col: 13, offset: 89693},
+										pos: position{line: 2833, col: 13, offset: 89737},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 13, offset: 89693},
+											pos: position{line: 2833, col: 13, offset: 89737},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 13, offset: 89693},
+													pos:   position{line: 2833, col: 13, offset: 89737},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2833, col: 20, offset: 89700},
+														pos: position{line: 2833, col: 20, offset: 89744},
 														expr: &actionExpr{
-															pos: position{line: 2841, col: 11, offset: 89939},
+															pos: position{line: 2841, col: 11, offset: 89983},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2841, col: 12, offset: 89940},
+																pos: position{line: 2841, col: 12, offset: 89984},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 12, offset: 89940},
+																		pos:        position{line: 2841, col: 12, offset: 89984},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 24, offset: 89952},
+																		pos:        position{line: 2841, col: 24, offset: 89996},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 37, offset: 89965},
+																		pos:        position{line: 2841, col: 37, offset: 90009},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 48, offset: 89976},
+																		pos:        position{line: 2841, col: 48, offset: 90020},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 59, offset: 89987},
+																		pos:        position{line: 2841, col: 59, offset: 90031},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21927,38 +21927,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2833, col: 30, offset: 89710},
+													pos:   position{line: 2833, col: 30, offset: 89754},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 5, offset: 90051},
+														pos: position{line: 2846, col: 5, offset: 90095},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2846, col: 5, offset: 90051},
+															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2846, col: 14, offset: 90060},
+																pos: position{line: 2846, col: 14, offset: 90104},
 																expr: &choiceExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2847, col: 9, offset: 90070},
+																			pos: position{line: 2847, col: 9, offset: 90114},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2847, col: 9, offset: 90070},
+																						pos: position{line: 2847, col: 9, offset: 90114},
 																						expr: &litMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90071},
+																							pos:        position{line: 2847, col: 10, offset: 90115},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2848, col: 9, offset: 90099},
+																						pos: position{line: 2848, col: 9, offset: 90143},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90100},
+																							pos:        position{line: 2848, col: 10, offset: 90144},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21969,27 +21969,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2851, col: 11, offset: 90312},
+																			pos: position{line: 2851, col: 11, offset: 90356},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2851, col: 11, offset: 90312},
+																					pos:        position{line: 2851, col: 11, offset: 90356},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2851, col: 19, offset: 90320},
+																					pos: position{line: 2851, col: 19, offset: 90364},
 																					expr: &seqExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2851, col: 21, offset: 90322},
+																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21998,11 +21998,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2851, col: 28, offset: 90329},
+																								pos: position{line: 2851, col: 28, offset: 90373},
 																								expr: &notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -22012,44 +22012,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20153},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20225},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20234},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20363},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20363},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20363},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20371},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink47,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22057,9 +22057,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22072,7 +22072,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20390},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22081,28 +22081,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20631},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20631},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20635},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink57,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22110,9 +22110,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22125,7 +22125,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20654},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22134,28 +22134,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20835},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20835},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20835},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20847},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink67,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22163,9 +22163,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22178,33 +22178,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20866},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20872},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22212,12 +22212,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22234,7 +22234,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20888},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22243,28 +22243,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21006},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21006},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21006},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21019},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink89,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22272,9 +22272,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22287,33 +22287,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21038},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21044},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22321,12 +22321,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22343,7 +22343,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21060},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22358,27 +22358,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 37016},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37044},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37049},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37049},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22388,7 +22388,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22397,10 +22397,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2854, col: 11, offset: 90449},
+																			pos: position{line: 2854, col: 11, offset: 90493},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 11, offset: 90449},
+																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22417,10 +22417,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45681},
+									pos:   position{line: 1419, col: 32, offset: 45725},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45693},
+										pos:  position{line: 1419, col: 44, offset: 45737},
 										name: "InlineAttributes",
 									},
 								},
@@ -22428,63 +22428,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45825},
+						pos: position{line: 1424, col: 5, offset: 45869},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45825},
+							pos: position{line: 1424, col: 5, offset: 45869},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45825},
+									pos:        position{line: 1424, col: 5, offset: 45869},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45833},
+									pos:   position{line: 1424, col: 13, offset: 45877},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2833, col: 13, offset: 89693},
+										pos: position{line: 2833, col: 13, offset: 89737},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2833, col: 13, offset: 89693},
+											pos: position{line: 2833, col: 13, offset: 89737},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2833, col: 13, offset: 89693},
+													pos:   position{line: 2833, col: 13, offset: 89737},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2833, col: 20, offset: 89700},
+														pos: position{line: 2833, col: 20, offset: 89744},
 														expr: &actionExpr{
-															pos: position{line: 2841, col: 11, offset: 89939},
+															pos: position{line: 2841, col: 11, offset: 89983},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2841, col: 12, offset: 89940},
+																pos: position{line: 2841, col: 12, offset: 89984},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 12, offset: 89940},
+																		pos:        position{line: 2841, col: 12, offset: 89984},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 24, offset: 89952},
+																		pos:        position{line: 2841, col: 24, offset: 89996},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 37, offset: 89965},
+																		pos:        position{line: 2841, col: 37, offset: 90009},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 48, offset: 89976},
+																		pos:        position{line: 2841, col: 48, offset: 90020},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2841, col: 59, offset: 89987},
+																		pos:        position{line: 2841, col: 59, offset: 90031},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22495,38 +22495,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2833, col: 30, offset: 89710},
+													pos:   position{line: 2833, col: 30, offset: 89754},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 5, offset: 90051},
+														pos: position{line: 2846, col: 5, offset: 90095},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2846, col: 5, offset: 90051},
+															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2846, col: 14, offset: 90060},
+																pos: position{line: 2846, col: 14, offset: 90104},
 																expr: &choiceExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2847, col: 9, offset: 90070},
+																			pos: position{line: 2847, col: 9, offset: 90114},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2847, col: 9, offset: 90070},
+																						pos: position{line: 2847, col: 9, offset: 90114},
 																						expr: &litMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90071},
+																							pos:        position{line: 2847, col: 10, offset: 90115},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2848, col: 9, offset: 90099},
+																						pos: position{line: 2848, col: 9, offset: 90143},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90100},
+																							pos:        position{line: 2848, col: 10, offset: 90144},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22537,27 +22537,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2851, col: 11, offset: 90312},
+																			pos: position{line: 2851, col: 11, offset: 90356},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2851, col: 11, offset: 90312},
+																					pos:        position{line: 2851, col: 11, offset: 90356},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2851, col: 19, offset: 90320},
+																					pos: position{line: 2851, col: 19, offset: 90364},
 																					expr: &seqExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2851, col: 21, offset: 90322},
+																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22566,11 +22566,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2851, col: 28, offset: 90329},
+																								pos: position{line: 2851, col: 28, offset: 90373},
 																								expr: &notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -22580,44 +22580,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20153},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20225},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20234},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20363},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20363},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20363},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20371},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink164,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22625,9 +22625,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22640,7 +22640,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20390},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22649,28 +22649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20631},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20631},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20635},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink174,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22678,9 +22678,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22693,7 +22693,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20654},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22702,28 +22702,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20835},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20835},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20835},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20847},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink184,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22731,9 +22731,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22746,33 +22746,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20866},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20872},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22780,12 +22780,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22802,7 +22802,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20888},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22811,28 +22811,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21006},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21006},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21006},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21019},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonRelativeLink206,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22840,9 +22840,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22855,33 +22855,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21038},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21044},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22889,12 +22889,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22911,7 +22911,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21060},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22926,27 +22926,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 37016},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37044},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37049},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37049},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22956,7 +22956,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22965,10 +22965,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2854, col: 11, offset: 90449},
+																			pos: position{line: 2854, col: 11, offset: 90493},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 11, offset: 90449},
+																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22985,10 +22985,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45848},
+									pos:   position{line: 1424, col: 28, offset: 45892},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 45860},
+										pos:  position{line: 1424, col: 40, offset: 45904},
 										name: "InlineAttributes",
 									},
 								},
@@ -23000,75 +23000,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 45976},
+			pos:  position{line: 1428, col: 1, offset: 46020},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46138},
+				pos: position{line: 1431, col: 5, offset: 46182},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46138},
+						pos: position{line: 1431, col: 5, offset: 46182},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46138},
+							pos: position{line: 1431, col: 5, offset: 46182},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46138},
+									pos:        position{line: 1431, col: 5, offset: 46182},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46142},
+									pos:   position{line: 1431, col: 9, offset: 46186},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 23, offset: 89820},
+										pos: position{line: 2837, col: 23, offset: 89864},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2837, col: 23, offset: 89820},
+											pos: position{line: 2837, col: 23, offset: 89864},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2837, col: 23, offset: 89820},
+													pos: position{line: 2837, col: 23, offset: 89864},
 													expr: &litMatcher{
-														pos:        position{line: 2837, col: 24, offset: 89821},
+														pos:        position{line: 2837, col: 24, offset: 89865},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2837, col: 28, offset: 89825},
+													pos:   position{line: 2837, col: 28, offset: 89869},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 11, offset: 89939},
+														pos: position{line: 2841, col: 11, offset: 89983},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2841, col: 12, offset: 89940},
+															pos: position{line: 2841, col: 12, offset: 89984},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2841, col: 12, offset: 89940},
+																	pos:        position{line: 2841, col: 12, offset: 89984},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 24, offset: 89952},
+																	pos:        position{line: 2841, col: 24, offset: 89996},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 37, offset: 89965},
+																	pos:        position{line: 2841, col: 37, offset: 90009},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 48, offset: 89976},
+																	pos:        position{line: 2841, col: 48, offset: 90020},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 59, offset: 89987},
+																	pos:        position{line: 2841, col: 59, offset: 90031},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23078,38 +23078,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2837, col: 44, offset: 89841},
+													pos:   position{line: 2837, col: 44, offset: 89885},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 5, offset: 90051},
+														pos: position{line: 2846, col: 5, offset: 90095},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2846, col: 5, offset: 90051},
+															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2846, col: 14, offset: 90060},
+																pos: position{line: 2846, col: 14, offset: 90104},
 																expr: &choiceExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2847, col: 9, offset: 90070},
+																			pos: position{line: 2847, col: 9, offset: 90114},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2847, col: 9, offset: 90070},
+																						pos: position{line: 2847, col: 9, offset: 90114},
 																						expr: &litMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90071},
+																							pos:        position{line: 2847, col: 10, offset: 90115},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2848, col: 9, offset: 90099},
+																						pos: position{line: 2848, col: 9, offset: 90143},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90100},
+																							pos:        position{line: 2848, col: 10, offset: 90144},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23120,27 +23120,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2851, col: 11, offset: 90312},
+																			pos: position{line: 2851, col: 11, offset: 90356},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2851, col: 11, offset: 90312},
+																					pos:        position{line: 2851, col: 11, offset: 90356},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2851, col: 19, offset: 90320},
+																					pos: position{line: 2851, col: 19, offset: 90364},
 																					expr: &seqExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2851, col: 21, offset: 90322},
+																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23149,11 +23149,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2851, col: 28, offset: 90329},
+																								pos: position{line: 2851, col: 28, offset: 90373},
 																								expr: &notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -23163,44 +23163,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20153},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20225},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20234},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20363},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20363},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20363},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20371},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23208,9 +23208,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23223,7 +23223,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20390},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23232,28 +23232,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20631},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20631},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20635},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23261,9 +23261,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23276,7 +23276,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20654},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23285,28 +23285,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20835},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20835},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20835},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20847},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23314,9 +23314,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23329,33 +23329,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20866},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20872},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23363,12 +23363,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23385,7 +23385,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20888},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23394,28 +23394,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21006},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21006},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21006},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21019},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23423,9 +23423,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23438,33 +23438,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21038},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21044},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23472,12 +23472,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23494,7 +23494,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21060},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23509,27 +23509,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 37016},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37044},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37049},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37049},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23539,7 +23539,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23548,10 +23548,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2854, col: 11, offset: 90449},
+																			pos: position{line: 2854, col: 11, offset: 90493},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 11, offset: 90449},
+																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23568,12 +23568,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46167},
+									pos:   position{line: 1431, col: 34, offset: 46211},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46178},
+										pos: position{line: 1431, col: 45, offset: 46222},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46179},
+											pos:  position{line: 1431, col: 46, offset: 46223},
 											name: "InlineAttributes",
 										},
 									},
@@ -23582,64 +23582,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46312},
+						pos: position{line: 1436, col: 5, offset: 46356},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46312},
+							pos: position{line: 1436, col: 5, offset: 46356},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46312},
+									pos:   position{line: 1436, col: 5, offset: 46356},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 23, offset: 89820},
+										pos: position{line: 2837, col: 23, offset: 89864},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2837, col: 23, offset: 89820},
+											pos: position{line: 2837, col: 23, offset: 89864},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2837, col: 23, offset: 89820},
+													pos: position{line: 2837, col: 23, offset: 89864},
 													expr: &litMatcher{
-														pos:        position{line: 2837, col: 24, offset: 89821},
+														pos:        position{line: 2837, col: 24, offset: 89865},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2837, col: 28, offset: 89825},
+													pos:   position{line: 2837, col: 28, offset: 89869},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 11, offset: 89939},
+														pos: position{line: 2841, col: 11, offset: 89983},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2841, col: 12, offset: 89940},
+															pos: position{line: 2841, col: 12, offset: 89984},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2841, col: 12, offset: 89940},
+																	pos:        position{line: 2841, col: 12, offset: 89984},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 24, offset: 89952},
+																	pos:        position{line: 2841, col: 24, offset: 89996},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 37, offset: 89965},
+																	pos:        position{line: 2841, col: 37, offset: 90009},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 48, offset: 89976},
+																	pos:        position{line: 2841, col: 48, offset: 90020},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2841, col: 59, offset: 89987},
+																	pos:        position{line: 2841, col: 59, offset: 90031},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23649,38 +23649,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2837, col: 44, offset: 89841},
+													pos:   position{line: 2837, col: 44, offset: 89885},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 5, offset: 90051},
+														pos: position{line: 2846, col: 5, offset: 90095},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2846, col: 5, offset: 90051},
+															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2846, col: 14, offset: 90060},
+																pos: position{line: 2846, col: 14, offset: 90104},
 																expr: &choiceExpr{
-																	pos: position{line: 2847, col: 9, offset: 90070},
+																	pos: position{line: 2847, col: 9, offset: 90114},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2847, col: 9, offset: 90070},
+																			pos: position{line: 2847, col: 9, offset: 90114},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2847, col: 9, offset: 90070},
+																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2847, col: 9, offset: 90070},
+																						pos: position{line: 2847, col: 9, offset: 90114},
 																						expr: &litMatcher{
-																							pos:        position{line: 2847, col: 10, offset: 90071},
+																							pos:        position{line: 2847, col: 10, offset: 90115},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2848, col: 9, offset: 90099},
+																						pos: position{line: 2848, col: 9, offset: 90143},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90100},
+																							pos:        position{line: 2848, col: 10, offset: 90144},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23691,27 +23691,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2851, col: 11, offset: 90312},
+																			pos: position{line: 2851, col: 11, offset: 90356},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2851, col: 11, offset: 90312},
+																					pos:        position{line: 2851, col: 11, offset: 90356},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2851, col: 19, offset: 90320},
+																					pos: position{line: 2851, col: 19, offset: 90364},
 																					expr: &seqExpr{
-																						pos: position{line: 2851, col: 21, offset: 90322},
+																						pos: position{line: 2851, col: 21, offset: 90366},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2851, col: 21, offset: 90322},
+																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23720,11 +23720,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2851, col: 28, offset: 90329},
+																								pos: position{line: 2851, col: 28, offset: 90373},
 																								expr: &notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -23734,44 +23734,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20153},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20153},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20153},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20225},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20234},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20363},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20363},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20363},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20371},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink166,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23779,9 +23779,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23794,7 +23794,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20390},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23803,28 +23803,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20631},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20631},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20635},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink176,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23832,9 +23832,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23847,7 +23847,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20654},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23856,28 +23856,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20835},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20835},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20835},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20847},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink186,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23885,9 +23885,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23900,33 +23900,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20866},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20872},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23934,12 +23934,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23956,7 +23956,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20888},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23965,28 +23965,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21006},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21006},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21006},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21019},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9780},
 																													run: (*parser).callonExternalLink208,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9780},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23994,9 +23994,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9791},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24009,33 +24009,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21038},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21044},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21167},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21167},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21171},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21178},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21178},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24043,12 +24043,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21232},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21232},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24065,7 +24065,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21060},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24080,27 +24080,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 37016},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37044},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37049},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37049},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24110,7 +24110,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36984},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24119,10 +24119,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2854, col: 11, offset: 90449},
+																			pos: position{line: 2854, col: 11, offset: 90493},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 11, offset: 90449},
+																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24139,12 +24139,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46337},
+									pos:   position{line: 1436, col: 30, offset: 46381},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46348},
+										pos: position{line: 1436, col: 41, offset: 46392},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46349},
+											pos:  position{line: 1436, col: 42, offset: 46393},
 											name: "InlineAttributes",
 										},
 									},
@@ -24157,41 +24157,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47490},
+			pos:  position{line: 1470, col: 1, offset: 47534},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47511},
+				pos: position{line: 1471, col: 5, offset: 47555},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47511},
+					pos: position{line: 1471, col: 5, offset: 47555},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47511},
+							pos:   position{line: 1471, col: 5, offset: 47555},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1477, col: 5, offset: 47757},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1570, col: 5, offset: 50691},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1570, col: 5, offset: 50691},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1570, col: 5, offset: 50691},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1577, col: 5, offset: 50899},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1577, col: 5, offset: 50899},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1577, col: 5, offset: 50899},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24200,27 +24200,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1577, col: 12, offset: 50906},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1579, col: 9, offset: 50969},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1579, col: 9, offset: 50969},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1579, col: 9, offset: 50969},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1579, col: 9, offset: 50969},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1579, col: 16, offset: 50976},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1579, col: 16, offset: 50976},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1579, col: 17, offset: 50977},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24229,22 +24229,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1583, col: 9, offset: 51077},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1602, col: 11, offset: 51794},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1602, col: 11, offset: 51794},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1602, col: 11, offset: 51794},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1602, col: 12, offset: 51795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24252,7 +24252,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1602, col: 20, offset: 51803},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24261,20 +24261,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1604, col: 13, offset: 51920},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1604, col: 13, offset: 51920},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1604, col: 14, offset: 51921},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1604, col: 21, offset: 51928},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24283,20 +24283,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1606, col: 13, offset: 52048},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1606, col: 13, offset: 52048},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1606, col: 14, offset: 52049},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1606, col: 21, offset: 52056},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24305,15 +24305,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1608, col: 13, offset: 52176},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1608, col: 13, offset: 52176},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1608, col: 13, offset: 52176},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1608, col: 14, offset: 52177},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24321,7 +24321,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1608, col: 26, offset: 52189},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24330,15 +24330,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1610, col: 13, offset: 52309},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1610, col: 13, offset: 52309},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1610, col: 13, offset: 52309},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1610, col: 14, offset: 52310},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24346,7 +24346,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1610, col: 26, offset: 52322},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24358,12 +24358,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24376,26 +24376,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1571, col: 5, offset: 50730},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49197},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49197},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49206},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49207},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49207},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49207},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24406,28 +24406,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24436,9 +24436,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -24451,27 +24451,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1620, col: 5, offset: 52588},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1620, col: 5, offset: 52588},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1620, col: 5, offset: 52588},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1627, col: 5, offset: 52861},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1627, col: 5, offset: 52861},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1627, col: 5, offset: 52861},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24480,24 +24480,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1628, col: 5, offset: 52873},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1629, col: 9, offset: 52889},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1629, col: 10, offset: 52890},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1629, col: 11, offset: 52891},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1629, col: 18, offset: 52898},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1629, col: 19, offset: 52899},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24508,16 +24508,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1632, col: 7, offset: 52989},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24530,56 +24530,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1621, col: 5, offset: 52629},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1621, col: 16, offset: 52640},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1642, col: 5, offset: 53254},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1642, col: 5, offset: 53254},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1642, col: 5, offset: 53254},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1642, col: 6, offset: 53255},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1642, col: 10, offset: 53259},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1643, col: 7, offset: 53273},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1643, col: 7, offset: 53273},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1643, col: 7, offset: 53273},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1644, col: 7, offset: 53318},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1644, col: 7, offset: 53318},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1645, col: 7, offset: 53361},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1645, col: 7, offset: 53361},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24589,12 +24589,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2879, col: 11, offset: 90995},
+																			pos: position{line: 2879, col: 11, offset: 91039},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90995},
+																				pos:        position{line: 2879, col: 11, offset: 91039},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24608,26 +24608,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1622, col: 5, offset: 52679},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49197},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49197},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49206},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49207},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49207},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49207},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24638,28 +24638,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24668,9 +24668,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -24683,36 +24683,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1711, col: 5, offset: 55189},
+										pos: position{line: 1711, col: 5, offset: 55233},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1711, col: 5, offset: 55189},
+											pos: position{line: 1711, col: 5, offset: 55233},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55189},
+													pos:   position{line: 1711, col: 5, offset: 55233},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1717, col: 5, offset: 55386},
+														pos: position{line: 1717, col: 5, offset: 55430},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1717, col: 5, offset: 55386},
+															pos: position{line: 1717, col: 5, offset: 55430},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1717, col: 5, offset: 55386},
+																	pos:        position{line: 1717, col: 5, offset: 55430},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1717, col: 9, offset: 55390},
+																	pos:   position{line: 1717, col: 9, offset: 55434},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 14, offset: 55395},
+																		pos: position{line: 1717, col: 14, offset: 55439},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1717, col: 14, offset: 55395},
+																			pos: position{line: 1717, col: 14, offset: 55439},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1717, col: 14, offset: 55395},
+																				pos:        position{line: 1717, col: 14, offset: 55439},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24722,18 +24722,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1717, col: 62, offset: 55443},
+																	pos:        position{line: 1717, col: 62, offset: 55487},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24746,26 +24746,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1712, col: 5, offset: 55225},
+													pos:   position{line: 1712, col: 5, offset: 55269},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49197},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49197},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49206},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49207},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49207},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49207},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24776,28 +24776,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24806,9 +24806,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -24821,35 +24821,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1654, col: 5, offset: 53554},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1654, col: 5, offset: 53554},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1654, col: 5, offset: 53554},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1662, col: 5, offset: 53880},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1662, col: 5, offset: 53880},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1662, col: 5, offset: 53880},
 																	expr: &seqExpr{
-																		pos: position{line: 2487, col: 31, offset: 80069},
+																		pos: position{line: 2487, col: 31, offset: 80113},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2487, col: 31, offset: 80069},
+																				pos:        position{line: 2487, col: 31, offset: 80113},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2487, col: 36, offset: 80074},
+																				pos: position{line: 2487, col: 36, offset: 80118},
 																				expr: &litMatcher{
-																					pos:        position{line: 2487, col: 37, offset: 80075},
+																					pos:        position{line: 2487, col: 37, offset: 80119},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -24859,28 +24859,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1663, col: 5, offset: 53868},
+																	pos: position{line: 1663, col: 5, offset: 53912},
 																	expr: &seqExpr{
-																		pos: position{line: 1663, col: 6, offset: 53869},
+																		pos: position{line: 1663, col: 6, offset: 53913},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1663, col: 6, offset: 53869},
+																				pos: position{line: 1663, col: 6, offset: 53913},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54019},
+																					pos: position{line: 1668, col: 5, offset: 54063},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54019},
+																						pos: position{line: 1668, col: 5, offset: 54063},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 5, offset: 54019},
+																								pos:   position{line: 1668, col: 5, offset: 54063},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1668, col: 16, offset: 54030},
+																									pos: position{line: 1668, col: 16, offset: 54074},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1668, col: 16, offset: 54030},
+																										pos: position{line: 1668, col: 16, offset: 54074},
 																										expr: &litMatcher{
-																											pos:        position{line: 1668, col: 17, offset: 54031},
+																											pos:        position{line: 1668, col: 17, offset: 54075},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -24889,7 +24889,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1671, col: 5, offset: 54088},
+																								pos: position{line: 1671, col: 5, offset: 54132},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -24897,30 +24897,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1663, col: 35, offset: 53898},
+																				pos: position{line: 1663, col: 35, offset: 53942},
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -24929,16 +24929,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1663, col: 40, offset: 53903,
+																				line: 1663, col: 40, offset: 53947,
 																			},
 																		},
 																	},
@@ -24948,24 +24948,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1655, col: 5, offset: 53589},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 54019},
+														pos: position{line: 1668, col: 5, offset: 54063},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1668, col: 5, offset: 54019},
+															pos: position{line: 1668, col: 5, offset: 54063},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1668, col: 5, offset: 54019},
+																	pos:   position{line: 1668, col: 5, offset: 54063},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 16, offset: 54030},
+																		pos: position{line: 1668, col: 16, offset: 54074},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1668, col: 16, offset: 54030},
+																			pos: position{line: 1668, col: 16, offset: 54074},
 																			expr: &litMatcher{
-																				pos:        position{line: 1668, col: 17, offset: 54031},
+																				pos:        position{line: 1668, col: 17, offset: 54075},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -24974,7 +24974,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 5, offset: 54088},
+																	pos: position{line: 1671, col: 5, offset: 54132},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -24982,24 +24982,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1656, col: 5, offset: 53634},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1679, col: 5, offset: 54337},
+														pos: position{line: 1679, col: 5, offset: 54381},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 9, offset: 54403},
+																pos: position{line: 1681, col: 9, offset: 54447},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 9, offset: 54403},
+																	pos: position{line: 1681, col: 9, offset: 54447},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54403},
+																			pos: position{line: 1681, col: 9, offset: 54447},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25008,28 +25008,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25038,34 +25038,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1682, col: 9, offset: 54422},
+																			pos: position{line: 1682, col: 9, offset: 54466},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21533},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21533},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 677, col: 21, offset: 21540},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25074,28 +25074,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25104,9 +25104,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -25119,18 +25119,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54551},
+																pos: position{line: 1688, col: 9, offset: 54595},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54551},
+																	pos: position{line: 1688, col: 9, offset: 54595},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90995},
+																			pos: position{line: 2879, col: 11, offset: 91039},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2879, col: 11, offset: 90995},
+																				pos: position{line: 2879, col: 11, offset: 91039},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 90995},
+																					pos:        position{line: 2879, col: 11, offset: 91039},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25139,15 +25139,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 9, offset: 54624},
+																			pos:   position{line: 1689, col: 9, offset: 54668},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1689, col: 18, offset: 54633},
+																				pos: position{line: 1689, col: 18, offset: 54677},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1689, col: 18, offset: 54633},
+																					pos: position{line: 1689, col: 18, offset: 54677},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1689, col: 18, offset: 54633},
+																						pos:        position{line: 1689, col: 18, offset: 54677},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25157,28 +25157,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25187,9 +25187,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -25207,10 +25207,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47542},
+							pos:   position{line: 1472, col: 5, offset: 47586},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47557},
+								pos:  position{line: 1472, col: 20, offset: 47601},
 								name: "ExtraListElements",
 							},
 						},
@@ -25220,17 +25220,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47812},
+			pos:  position{line: 1482, col: 1, offset: 47856},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47833},
+				pos: position{line: 1482, col: 22, offset: 47877},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47833},
+					pos:   position{line: 1482, col: 22, offset: 47877},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47842},
+						pos: position{line: 1482, col: 31, offset: 47886},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47843},
+							pos:  position{line: 1482, col: 32, offset: 47887},
 							name: "ExtraListElement",
 						},
 					},
@@ -25239,52 +25239,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 47923},
+			pos:  position{line: 1486, col: 1, offset: 47967},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48062},
+				pos: position{line: 1487, col: 5, offset: 48106},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48062},
+					pos: position{line: 1487, col: 5, offset: 48106},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48074},
+							pos:   position{line: 1488, col: 5, offset: 48118},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48092},
+								pos: position{line: 1489, col: 9, offset: 48136},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48096},
+										pos: position{line: 1489, col: 13, offset: 48140},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48096},
+											pos: position{line: 1489, col: 13, offset: 48140},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48096},
+													pos: position{line: 1489, col: 13, offset: 48140},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 677, col: 14, offset: 21533},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2892, col: 11, offset: 91268},
+																	pos: position{line: 2892, col: 11, offset: 91312},
 																	expr: &anyMatcher{
-																		line: 2892, col: 13, offset: 91270,
+																		line: 2892, col: 13, offset: 91314,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 677, col: 21, offset: 21540},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25293,28 +25293,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25323,9 +25323,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -25335,33 +25335,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48120},
+													pos:   position{line: 1490, col: 13, offset: 48164},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48129},
+														pos: position{line: 1490, col: 22, offset: 48173},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1570, col: 5, offset: 50691},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1570, col: 5, offset: 50691},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1570, col: 5, offset: 50691},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1577, col: 5, offset: 50899},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1577, col: 5, offset: 50899},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1577, col: 5, offset: 50899},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25370,27 +25370,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1577, col: 12, offset: 50906},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1579, col: 9, offset: 50969},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1579, col: 9, offset: 50969},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1579, col: 9, offset: 50969},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1579, col: 9, offset: 50969},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1579, col: 16, offset: 50976},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1579, col: 16, offset: 50976},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1579, col: 17, offset: 50977},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25399,22 +25399,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1583, col: 9, offset: 51077},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1602, col: 11, offset: 51794},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1602, col: 11, offset: 51794},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1602, col: 11, offset: 51794},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1602, col: 12, offset: 51795},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25422,7 +25422,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1602, col: 20, offset: 51803},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25431,20 +25431,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1604, col: 13, offset: 51920},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1604, col: 13, offset: 51920},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1604, col: 14, offset: 51921},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1604, col: 21, offset: 51928},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25453,20 +25453,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1606, col: 13, offset: 52048},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1606, col: 13, offset: 52048},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1606, col: 14, offset: 52049},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1606, col: 21, offset: 52056},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25475,15 +25475,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1608, col: 13, offset: 52176},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1608, col: 13, offset: 52176},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1608, col: 13, offset: 52176},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1608, col: 14, offset: 52177},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25491,7 +25491,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1608, col: 26, offset: 52189},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25500,15 +25500,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1610, col: 13, offset: 52309},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1610, col: 13, offset: 52309},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1610, col: 13, offset: 52309},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1610, col: 14, offset: 52310},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25516,7 +25516,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1610, col: 26, offset: 52322},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25528,12 +25528,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25546,26 +25546,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1571, col: 5, offset: 50730},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49197},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49197},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49206},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49207},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49207},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49207},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25576,28 +25576,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25606,9 +25606,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -25621,27 +25621,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1620, col: 5, offset: 52588},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1620, col: 5, offset: 52588},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1620, col: 5, offset: 52588},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1627, col: 5, offset: 52861},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1627, col: 5, offset: 52861},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1627, col: 5, offset: 52861},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25650,24 +25650,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1628, col: 5, offset: 52873},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1629, col: 9, offset: 52889},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1629, col: 10, offset: 52890},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1629, col: 11, offset: 52891},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1629, col: 18, offset: 52898},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1629, col: 19, offset: 52899},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25678,16 +25678,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1632, col: 7, offset: 52989},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25700,56 +25700,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1621, col: 5, offset: 52629},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1621, col: 16, offset: 52640},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1642, col: 5, offset: 53254},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1642, col: 5, offset: 53254},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1642, col: 5, offset: 53254},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1642, col: 6, offset: 53255},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1642, col: 10, offset: 53259},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1643, col: 7, offset: 53273},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1643, col: 7, offset: 53273},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1643, col: 7, offset: 53273},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1644, col: 7, offset: 53318},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1644, col: 7, offset: 53318},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1645, col: 7, offset: 53361},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1645, col: 7, offset: 53361},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25759,12 +25759,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2879, col: 11, offset: 90995},
+																									pos: position{line: 2879, col: 11, offset: 91039},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2879, col: 11, offset: 90995},
+																										pos:        position{line: 2879, col: 11, offset: 91039},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25778,26 +25778,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1622, col: 5, offset: 52679},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49197},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49197},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49206},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49207},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49207},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49207},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25808,28 +25808,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25838,9 +25838,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -25853,36 +25853,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1711, col: 5, offset: 55189},
+																pos: position{line: 1711, col: 5, offset: 55233},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1711, col: 5, offset: 55189},
+																	pos: position{line: 1711, col: 5, offset: 55233},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55189},
+																			pos:   position{line: 1711, col: 5, offset: 55233},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1717, col: 5, offset: 55386},
+																				pos: position{line: 1717, col: 5, offset: 55430},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1717, col: 5, offset: 55386},
+																					pos: position{line: 1717, col: 5, offset: 55430},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 5, offset: 55386},
+																							pos:        position{line: 1717, col: 5, offset: 55430},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1717, col: 9, offset: 55390},
+																							pos:   position{line: 1717, col: 9, offset: 55434},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1717, col: 14, offset: 55395},
+																								pos: position{line: 1717, col: 14, offset: 55439},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1717, col: 14, offset: 55395},
+																									pos: position{line: 1717, col: 14, offset: 55439},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1717, col: 14, offset: 55395},
+																										pos:        position{line: 1717, col: 14, offset: 55439},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -25892,18 +25892,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 62, offset: 55443},
+																							pos:        position{line: 1717, col: 62, offset: 55487},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25916,26 +25916,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1712, col: 5, offset: 55225},
+																			pos:   position{line: 1712, col: 5, offset: 55269},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49197},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49197},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49206},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49207},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49207},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49207},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25946,28 +25946,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25976,9 +25976,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -25991,35 +25991,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1654, col: 5, offset: 53554},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1654, col: 5, offset: 53554},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1654, col: 5, offset: 53554},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1662, col: 5, offset: 53880},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1662, col: 5, offset: 53880},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1662, col: 5, offset: 53836},
+																							pos: position{line: 1662, col: 5, offset: 53880},
 																							expr: &seqExpr{
-																								pos: position{line: 2487, col: 31, offset: 80069},
+																								pos: position{line: 2487, col: 31, offset: 80113},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2487, col: 31, offset: 80069},
+																										pos:        position{line: 2487, col: 31, offset: 80113},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2487, col: 36, offset: 80074},
+																										pos: position{line: 2487, col: 36, offset: 80118},
 																										expr: &litMatcher{
-																											pos:        position{line: 2487, col: 37, offset: 80075},
+																											pos:        position{line: 2487, col: 37, offset: 80119},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26029,28 +26029,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 5, offset: 53868},
+																							pos: position{line: 1663, col: 5, offset: 53912},
 																							expr: &seqExpr{
-																								pos: position{line: 1663, col: 6, offset: 53869},
+																								pos: position{line: 1663, col: 6, offset: 53913},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1663, col: 6, offset: 53869},
+																										pos: position{line: 1663, col: 6, offset: 53913},
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 5, offset: 54019},
+																											pos: position{line: 1668, col: 5, offset: 54063},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1668, col: 5, offset: 54019},
+																												pos: position{line: 1668, col: 5, offset: 54063},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1668, col: 5, offset: 54019},
+																														pos:   position{line: 1668, col: 5, offset: 54063},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1668, col: 16, offset: 54030},
+																															pos: position{line: 1668, col: 16, offset: 54074},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1668, col: 16, offset: 54030},
+																																pos: position{line: 1668, col: 16, offset: 54074},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1668, col: 17, offset: 54031},
+																																	pos:        position{line: 1668, col: 17, offset: 54075},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26059,7 +26059,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1671, col: 5, offset: 54088},
+																														pos: position{line: 1671, col: 5, offset: 54132},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26067,30 +26067,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1663, col: 35, offset: 53898},
+																										pos: position{line: 1663, col: 35, offset: 53942},
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26099,16 +26099,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1663, col: 40, offset: 53903,
+																										line: 1663, col: 40, offset: 53947,
 																									},
 																								},
 																							},
@@ -26118,24 +26118,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1655, col: 5, offset: 53589},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54019},
+																				pos: position{line: 1668, col: 5, offset: 54063},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54019},
+																					pos: position{line: 1668, col: 5, offset: 54063},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1668, col: 5, offset: 54019},
+																							pos:   position{line: 1668, col: 5, offset: 54063},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 16, offset: 54030},
+																								pos: position{line: 1668, col: 16, offset: 54074},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1668, col: 16, offset: 54030},
+																									pos: position{line: 1668, col: 16, offset: 54074},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 17, offset: 54031},
+																										pos:        position{line: 1668, col: 17, offset: 54075},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26144,7 +26144,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 5, offset: 54088},
+																							pos: position{line: 1671, col: 5, offset: 54132},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26152,24 +26152,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1656, col: 5, offset: 53634},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1679, col: 5, offset: 54337},
+																				pos: position{line: 1679, col: 5, offset: 54381},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1681, col: 9, offset: 54403},
+																						pos: position{line: 1681, col: 9, offset: 54447},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1681, col: 9, offset: 54403},
+																							pos: position{line: 1681, col: 9, offset: 54447},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54403},
+																									pos: position{line: 1681, col: 9, offset: 54447},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26178,28 +26178,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26208,34 +26208,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1682, col: 9, offset: 54422},
+																									pos: position{line: 1682, col: 9, offset: 54466},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 677, col: 14, offset: 21533},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 677, col: 14, offset: 21533},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2892, col: 11, offset: 91268},
+																													pos: position{line: 2892, col: 11, offset: 91312},
 																													expr: &anyMatcher{
-																														line: 2892, col: 13, offset: 91270,
+																														line: 2892, col: 13, offset: 91314,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 677, col: 21, offset: 21540},
 																													expr: &actionExpr{
-																														pos: position{line: 2875, col: 10, offset: 90934},
+																														pos: position{line: 2875, col: 10, offset: 90978},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2875, col: 10, offset: 90934},
+																															pos:        position{line: 2875, col: 10, offset: 90978},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26244,28 +26244,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2897, col: 8, offset: 91332},
+																													pos: position{line: 2897, col: 8, offset: 91376},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2884, col: 12, offset: 91105},
+																															pos: position{line: 2884, col: 12, offset: 91149},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2884, col: 13, offset: 91106},
+																																pos: position{line: 2884, col: 13, offset: 91150},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 13, offset: 91106},
+																																		pos:        position{line: 2884, col: 13, offset: 91150},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 20, offset: 91113},
+																																		pos:        position{line: 2884, col: 20, offset: 91157},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 29, offset: 91122},
+																																		pos:        position{line: 2884, col: 29, offset: 91166},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26274,9 +26274,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2894, col: 8, offset: 91282},
+																															pos: position{line: 2894, col: 8, offset: 91326},
 																															expr: &anyMatcher{
-																																line: 2894, col: 9, offset: 91283,
+																																line: 2894, col: 9, offset: 91327,
 																															},
 																														},
 																													},
@@ -26289,18 +26289,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54551},
+																						pos: position{line: 1688, col: 9, offset: 54595},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54551},
+																							pos: position{line: 1688, col: 9, offset: 54595},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 11, offset: 90995},
+																									pos: position{line: 2879, col: 11, offset: 91039},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2879, col: 11, offset: 90995},
+																										pos: position{line: 2879, col: 11, offset: 91039},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2879, col: 11, offset: 90995},
+																											pos:        position{line: 2879, col: 11, offset: 91039},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26309,15 +26309,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1689, col: 9, offset: 54624},
+																									pos:   position{line: 1689, col: 9, offset: 54668},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1689, col: 18, offset: 54633},
+																										pos: position{line: 1689, col: 18, offset: 54677},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1689, col: 18, offset: 54633},
+																											pos: position{line: 1689, col: 18, offset: 54677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1689, col: 18, offset: 54633},
+																												pos:        position{line: 1689, col: 18, offset: 54677},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26327,28 +26327,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26357,9 +26357,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -26380,50 +26380,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48280},
+										pos: position{line: 1493, col: 13, offset: 48324},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48280},
+											pos: position{line: 1493, col: 13, offset: 48324},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48280},
+													pos:   position{line: 1493, col: 13, offset: 48324},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48291},
+														pos: position{line: 1493, col: 24, offset: 48335},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48292},
+															pos:  position{line: 1493, col: 25, offset: 48336},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48323},
+													pos:   position{line: 1494, col: 13, offset: 48367},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48332},
+														pos: position{line: 1494, col: 22, offset: 48376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1570, col: 5, offset: 50691},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1570, col: 5, offset: 50691},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1570, col: 5, offset: 50691},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1577, col: 5, offset: 50899},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1577, col: 5, offset: 50899},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1577, col: 5, offset: 50899},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26432,27 +26432,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1577, col: 12, offset: 50906},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1579, col: 9, offset: 50969},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1579, col: 9, offset: 50969},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1579, col: 9, offset: 50969},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1579, col: 9, offset: 50969},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1579, col: 16, offset: 50976},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1579, col: 16, offset: 50976},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1579, col: 17, offset: 50977},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26461,22 +26461,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1583, col: 9, offset: 51077},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1602, col: 11, offset: 51794},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1602, col: 11, offset: 51794},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1602, col: 11, offset: 51794},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1602, col: 12, offset: 51795},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26484,7 +26484,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1602, col: 20, offset: 51803},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26493,20 +26493,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1604, col: 13, offset: 51920},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1604, col: 13, offset: 51920},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1604, col: 14, offset: 51921},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1604, col: 21, offset: 51928},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26515,20 +26515,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1606, col: 13, offset: 52048},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1606, col: 13, offset: 52048},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1606, col: 14, offset: 52049},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1606, col: 21, offset: 52056},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26537,15 +26537,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1608, col: 13, offset: 52176},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1608, col: 13, offset: 52176},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1608, col: 13, offset: 52176},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1608, col: 14, offset: 52177},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26553,7 +26553,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1608, col: 26, offset: 52189},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26562,15 +26562,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1610, col: 13, offset: 52309},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1610, col: 13, offset: 52309},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1610, col: 13, offset: 52309},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1610, col: 14, offset: 52310},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26578,7 +26578,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1610, col: 26, offset: 52322},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26590,12 +26590,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26608,26 +26608,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1571, col: 5, offset: 50730},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49197},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49197},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49206},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49207},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49207},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49207},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26638,28 +26638,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26668,9 +26668,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -26683,27 +26683,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1620, col: 5, offset: 52588},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1620, col: 5, offset: 52588},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1620, col: 5, offset: 52588},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1627, col: 5, offset: 52861},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1627, col: 5, offset: 52861},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1627, col: 5, offset: 52861},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26712,24 +26712,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1628, col: 5, offset: 52873},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1629, col: 9, offset: 52889},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1629, col: 10, offset: 52890},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1629, col: 11, offset: 52891},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1629, col: 18, offset: 52898},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1629, col: 19, offset: 52899},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26740,16 +26740,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1632, col: 7, offset: 52989},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26762,56 +26762,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1621, col: 5, offset: 52629},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1621, col: 16, offset: 52640},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1642, col: 5, offset: 53254},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1642, col: 5, offset: 53254},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1642, col: 5, offset: 53254},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1642, col: 6, offset: 53255},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1642, col: 10, offset: 53259},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1643, col: 7, offset: 53273},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1643, col: 7, offset: 53273},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1643, col: 7, offset: 53273},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1644, col: 7, offset: 53318},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1644, col: 7, offset: 53318},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1645, col: 7, offset: 53361},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1645, col: 7, offset: 53361},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26821,12 +26821,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2879, col: 11, offset: 90995},
+																									pos: position{line: 2879, col: 11, offset: 91039},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2879, col: 11, offset: 90995},
+																										pos:        position{line: 2879, col: 11, offset: 91039},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26840,26 +26840,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1622, col: 5, offset: 52679},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49197},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49197},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49206},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49207},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49207},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49207},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26870,28 +26870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26900,9 +26900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -26915,36 +26915,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1711, col: 5, offset: 55189},
+																pos: position{line: 1711, col: 5, offset: 55233},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1711, col: 5, offset: 55189},
+																	pos: position{line: 1711, col: 5, offset: 55233},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55189},
+																			pos:   position{line: 1711, col: 5, offset: 55233},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1717, col: 5, offset: 55386},
+																				pos: position{line: 1717, col: 5, offset: 55430},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1717, col: 5, offset: 55386},
+																					pos: position{line: 1717, col: 5, offset: 55430},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 5, offset: 55386},
+																							pos:        position{line: 1717, col: 5, offset: 55430},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1717, col: 9, offset: 55390},
+																							pos:   position{line: 1717, col: 9, offset: 55434},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1717, col: 14, offset: 55395},
+																								pos: position{line: 1717, col: 14, offset: 55439},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1717, col: 14, offset: 55395},
+																									pos: position{line: 1717, col: 14, offset: 55439},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1717, col: 14, offset: 55395},
+																										pos:        position{line: 1717, col: 14, offset: 55439},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26954,18 +26954,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 62, offset: 55443},
+																							pos:        position{line: 1717, col: 62, offset: 55487},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26978,26 +26978,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1712, col: 5, offset: 55225},
+																			pos:   position{line: 1712, col: 5, offset: 55269},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49197},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49197},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49206},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49207},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49207},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49207},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27008,28 +27008,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27038,9 +27038,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -27053,35 +27053,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1654, col: 5, offset: 53554},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1654, col: 5, offset: 53554},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1654, col: 5, offset: 53554},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1662, col: 5, offset: 53880},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1662, col: 5, offset: 53880},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1662, col: 5, offset: 53836},
+																							pos: position{line: 1662, col: 5, offset: 53880},
 																							expr: &seqExpr{
-																								pos: position{line: 2487, col: 31, offset: 80069},
+																								pos: position{line: 2487, col: 31, offset: 80113},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2487, col: 31, offset: 80069},
+																										pos:        position{line: 2487, col: 31, offset: 80113},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2487, col: 36, offset: 80074},
+																										pos: position{line: 2487, col: 36, offset: 80118},
 																										expr: &litMatcher{
-																											pos:        position{line: 2487, col: 37, offset: 80075},
+																											pos:        position{line: 2487, col: 37, offset: 80119},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27091,28 +27091,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 5, offset: 53868},
+																							pos: position{line: 1663, col: 5, offset: 53912},
 																							expr: &seqExpr{
-																								pos: position{line: 1663, col: 6, offset: 53869},
+																								pos: position{line: 1663, col: 6, offset: 53913},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1663, col: 6, offset: 53869},
+																										pos: position{line: 1663, col: 6, offset: 53913},
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 5, offset: 54019},
+																											pos: position{line: 1668, col: 5, offset: 54063},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1668, col: 5, offset: 54019},
+																												pos: position{line: 1668, col: 5, offset: 54063},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1668, col: 5, offset: 54019},
+																														pos:   position{line: 1668, col: 5, offset: 54063},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1668, col: 16, offset: 54030},
+																															pos: position{line: 1668, col: 16, offset: 54074},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1668, col: 16, offset: 54030},
+																																pos: position{line: 1668, col: 16, offset: 54074},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1668, col: 17, offset: 54031},
+																																	pos:        position{line: 1668, col: 17, offset: 54075},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27121,7 +27121,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1671, col: 5, offset: 54088},
+																														pos: position{line: 1671, col: 5, offset: 54132},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27129,30 +27129,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1663, col: 35, offset: 53898},
+																										pos: position{line: 1663, col: 35, offset: 53942},
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27161,16 +27161,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1663, col: 40, offset: 53903,
+																										line: 1663, col: 40, offset: 53947,
 																									},
 																								},
 																							},
@@ -27180,24 +27180,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1655, col: 5, offset: 53589},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54019},
+																				pos: position{line: 1668, col: 5, offset: 54063},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54019},
+																					pos: position{line: 1668, col: 5, offset: 54063},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1668, col: 5, offset: 54019},
+																							pos:   position{line: 1668, col: 5, offset: 54063},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 16, offset: 54030},
+																								pos: position{line: 1668, col: 16, offset: 54074},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1668, col: 16, offset: 54030},
+																									pos: position{line: 1668, col: 16, offset: 54074},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 17, offset: 54031},
+																										pos:        position{line: 1668, col: 17, offset: 54075},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27206,7 +27206,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 5, offset: 54088},
+																							pos: position{line: 1671, col: 5, offset: 54132},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27214,24 +27214,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1656, col: 5, offset: 53634},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1679, col: 5, offset: 54337},
+																				pos: position{line: 1679, col: 5, offset: 54381},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1681, col: 9, offset: 54403},
+																						pos: position{line: 1681, col: 9, offset: 54447},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1681, col: 9, offset: 54403},
+																							pos: position{line: 1681, col: 9, offset: 54447},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54403},
+																									pos: position{line: 1681, col: 9, offset: 54447},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27240,28 +27240,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27270,34 +27270,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1682, col: 9, offset: 54422},
+																									pos: position{line: 1682, col: 9, offset: 54466},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 677, col: 14, offset: 21533},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 677, col: 14, offset: 21533},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2892, col: 11, offset: 91268},
+																													pos: position{line: 2892, col: 11, offset: 91312},
 																													expr: &anyMatcher{
-																														line: 2892, col: 13, offset: 91270,
+																														line: 2892, col: 13, offset: 91314,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 677, col: 21, offset: 21540},
 																													expr: &actionExpr{
-																														pos: position{line: 2875, col: 10, offset: 90934},
+																														pos: position{line: 2875, col: 10, offset: 90978},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2875, col: 10, offset: 90934},
+																															pos:        position{line: 2875, col: 10, offset: 90978},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27306,28 +27306,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2897, col: 8, offset: 91332},
+																													pos: position{line: 2897, col: 8, offset: 91376},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2884, col: 12, offset: 91105},
+																															pos: position{line: 2884, col: 12, offset: 91149},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2884, col: 13, offset: 91106},
+																																pos: position{line: 2884, col: 13, offset: 91150},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 13, offset: 91106},
+																																		pos:        position{line: 2884, col: 13, offset: 91150},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 20, offset: 91113},
+																																		pos:        position{line: 2884, col: 20, offset: 91157},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 29, offset: 91122},
+																																		pos:        position{line: 2884, col: 29, offset: 91166},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27336,9 +27336,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2894, col: 8, offset: 91282},
+																															pos: position{line: 2894, col: 8, offset: 91326},
 																															expr: &anyMatcher{
-																																line: 2894, col: 9, offset: 91283,
+																																line: 2894, col: 9, offset: 91327,
 																															},
 																														},
 																													},
@@ -27351,18 +27351,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54551},
+																						pos: position{line: 1688, col: 9, offset: 54595},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54551},
+																							pos: position{line: 1688, col: 9, offset: 54595},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 11, offset: 90995},
+																									pos: position{line: 2879, col: 11, offset: 91039},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2879, col: 11, offset: 90995},
+																										pos: position{line: 2879, col: 11, offset: 91039},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2879, col: 11, offset: 90995},
+																											pos:        position{line: 2879, col: 11, offset: 91039},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27371,15 +27371,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1689, col: 9, offset: 54624},
+																									pos:   position{line: 1689, col: 9, offset: 54668},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1689, col: 18, offset: 54633},
+																										pos: position{line: 1689, col: 18, offset: 54677},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1689, col: 18, offset: 54633},
+																											pos: position{line: 1689, col: 18, offset: 54677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1689, col: 18, offset: 54633},
+																												pos:        position{line: 1689, col: 18, offset: 54677},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27389,28 +27389,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27419,9 +27419,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -27442,40 +27442,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48517},
+										pos:  position{line: 1497, col: 11, offset: 48561},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2482, col: 22, offset: 79848},
+										pos: position{line: 2482, col: 22, offset: 79892},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2482, col: 22, offset: 79848},
+											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2487, col: 31, offset: 80069},
+													pos:        position{line: 2487, col: 31, offset: 80113},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2487, col: 36, offset: 80074},
+													pos: position{line: 2487, col: 36, offset: 80118},
 													expr: &litMatcher{
-														pos:        position{line: 2487, col: 37, offset: 80075},
+														pos:        position{line: 2487, col: 37, offset: 80119},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2482, col: 49, offset: 79875},
+													pos:   position{line: 2482, col: 49, offset: 79919},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 13, offset: 89460},
+														pos: position{line: 2821, col: 13, offset: 89504},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2821, col: 13, offset: 89460},
+															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89460},
+																pos:        position{line: 2821, col: 13, offset: 89504},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27485,28 +27485,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27515,9 +27515,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -27526,32 +27526,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48795},
+										pos: position{line: 1505, col: 5, offset: 48839},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48795},
+											pos: position{line: 1505, col: 5, offset: 48839},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48795},
+													pos: position{line: 1505, col: 5, offset: 48839},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 677, col: 14, offset: 21533},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2892, col: 11, offset: 91268},
+																	pos: position{line: 2892, col: 11, offset: 91312},
 																	expr: &anyMatcher{
-																		line: 2892, col: 13, offset: 91270,
+																		line: 2892, col: 13, offset: 91314,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 677, col: 21, offset: 21540},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27560,28 +27560,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27590,9 +27590,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -27602,23 +27602,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48810},
+													pos: position{line: 1506, col: 5, offset: 48854},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49636},
+														pos: position{line: 1536, col: 27, offset: 49680},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49636},
+																pos:        position{line: 1536, col: 27, offset: 49680},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49640},
+																pos: position{line: 1536, col: 31, offset: 49684},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27627,25 +27627,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27657,20 +27657,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48838},
+													pos: position{line: 1507, col: 5, offset: 48882},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1577, col: 5, offset: 50899},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1577, col: 5, offset: 50899},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1577, col: 5, offset: 50899},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27679,27 +27679,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1577, col: 12, offset: 50906},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1579, col: 9, offset: 50969},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1579, col: 9, offset: 50969},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1579, col: 9, offset: 50969},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1579, col: 9, offset: 50969},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1579, col: 16, offset: 50976},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1579, col: 16, offset: 50976},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1579, col: 17, offset: 50977},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27708,22 +27708,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1583, col: 9, offset: 51077},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1602, col: 11, offset: 51794},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1602, col: 11, offset: 51794},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1602, col: 11, offset: 51794},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1602, col: 12, offset: 51795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27731,7 +27731,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1602, col: 20, offset: 51803},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27740,20 +27740,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1604, col: 13, offset: 51920},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1604, col: 13, offset: 51920},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1604, col: 14, offset: 51921},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1604, col: 21, offset: 51928},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27762,20 +27762,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1606, col: 13, offset: 52048},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1606, col: 13, offset: 52048},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1606, col: 14, offset: 52049},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1606, col: 21, offset: 52056},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27784,15 +27784,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1608, col: 13, offset: 52176},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1608, col: 13, offset: 52176},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1608, col: 13, offset: 52176},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1608, col: 14, offset: 52177},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27800,7 +27800,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1608, col: 26, offset: 52189},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27809,15 +27809,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1610, col: 13, offset: 52309},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1610, col: 13, offset: 52309},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1610, col: 13, offset: 52309},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1610, col: 14, offset: 52310},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27825,7 +27825,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1610, col: 26, offset: 52322},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27837,12 +27837,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27855,20 +27855,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48868},
+													pos: position{line: 1508, col: 5, offset: 48912},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1627, col: 5, offset: 52861},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1627, col: 5, offset: 52861},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1627, col: 5, offset: 52861},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27877,24 +27877,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1628, col: 5, offset: 52873},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1629, col: 9, offset: 52889},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1629, col: 10, offset: 52890},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1629, col: 11, offset: 52891},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1629, col: 18, offset: 52898},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1629, col: 19, offset: 52899},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -27905,16 +27905,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1632, col: 7, offset: 52989},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27927,29 +27927,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48900},
+													pos: position{line: 1509, col: 5, offset: 48944},
 													expr: &actionExpr{
-														pos: position{line: 1717, col: 5, offset: 55386},
+														pos: position{line: 1717, col: 5, offset: 55430},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1717, col: 5, offset: 55386},
+															pos: position{line: 1717, col: 5, offset: 55430},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1717, col: 5, offset: 55386},
+																	pos:        position{line: 1717, col: 5, offset: 55430},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1717, col: 9, offset: 55390},
+																	pos:   position{line: 1717, col: 9, offset: 55434},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 14, offset: 55395},
+																		pos: position{line: 1717, col: 14, offset: 55439},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1717, col: 14, offset: 55395},
+																			pos: position{line: 1717, col: 14, offset: 55439},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1717, col: 14, offset: 55395},
+																				pos:        position{line: 1717, col: 14, offset: 55439},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -27959,18 +27959,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1717, col: 62, offset: 55443},
+																	pos:        position{line: 1717, col: 62, offset: 55487},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27983,31 +27983,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48930},
+													pos: position{line: 1510, col: 5, offset: 48974},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48932},
+														pos: position{line: 1510, col: 7, offset: 48976},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53836},
+																pos: position{line: 1662, col: 5, offset: 53880},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1662, col: 5, offset: 53880},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1662, col: 5, offset: 53836},
+																			pos: position{line: 1662, col: 5, offset: 53880},
 																			expr: &seqExpr{
-																				pos: position{line: 2487, col: 31, offset: 80069},
+																				pos: position{line: 2487, col: 31, offset: 80113},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2487, col: 31, offset: 80069},
+																						pos:        position{line: 2487, col: 31, offset: 80113},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2487, col: 36, offset: 80074},
+																						pos: position{line: 2487, col: 36, offset: 80118},
 																						expr: &litMatcher{
-																							pos:        position{line: 2487, col: 37, offset: 80075},
+																							pos:        position{line: 2487, col: 37, offset: 80119},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28017,28 +28017,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1663, col: 5, offset: 53868},
+																			pos: position{line: 1663, col: 5, offset: 53912},
 																			expr: &seqExpr{
-																				pos: position{line: 1663, col: 6, offset: 53869},
+																				pos: position{line: 1663, col: 6, offset: 53913},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1663, col: 6, offset: 53869},
+																						pos: position{line: 1663, col: 6, offset: 53913},
 																						expr: &actionExpr{
-																							pos: position{line: 1668, col: 5, offset: 54019},
+																							pos: position{line: 1668, col: 5, offset: 54063},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1668, col: 5, offset: 54019},
+																								pos: position{line: 1668, col: 5, offset: 54063},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1668, col: 5, offset: 54019},
+																										pos:   position{line: 1668, col: 5, offset: 54063},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 16, offset: 54030},
+																											pos: position{line: 1668, col: 16, offset: 54074},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1668, col: 16, offset: 54030},
+																												pos: position{line: 1668, col: 16, offset: 54074},
 																												expr: &litMatcher{
-																													pos:        position{line: 1668, col: 17, offset: 54031},
+																													pos:        position{line: 1668, col: 17, offset: 54075},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28047,7 +28047,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1671, col: 5, offset: 54088},
+																										pos: position{line: 1671, col: 5, offset: 54132},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28055,30 +28055,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1663, col: 35, offset: 53898},
+																						pos: position{line: 1663, col: 35, offset: 53942},
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28087,16 +28087,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1663, col: 40, offset: 53903,
+																						line: 1663, col: 40, offset: 53947,
 																					},
 																				},
 																			},
@@ -28105,21 +28105,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1668, col: 5, offset: 54019},
+																pos: position{line: 1668, col: 5, offset: 54063},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1668, col: 5, offset: 54019},
+																	pos: position{line: 1668, col: 5, offset: 54063},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 54019},
+																			pos:   position{line: 1668, col: 5, offset: 54063},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 16, offset: 54030},
+																				pos: position{line: 1668, col: 16, offset: 54074},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1668, col: 16, offset: 54030},
+																					pos: position{line: 1668, col: 16, offset: 54074},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 17, offset: 54031},
+																						pos:        position{line: 1668, col: 17, offset: 54075},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28128,7 +28128,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1671, col: 5, offset: 54088},
+																			pos: position{line: 1671, col: 5, offset: 54132},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28138,17 +28138,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48988},
+													pos: position{line: 1511, col: 5, offset: 49032},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 724, col: 5, offset: 23086},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
+															pos: position{line: 724, col: 5, offset: 23086},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23042},
+																	pos: position{line: 724, col: 5, offset: 23086},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2765, col: 13, offset: 88029},
+																		pos:        position{line: 2765, col: 13, offset: 88073},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28156,36 +28156,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23072},
+																	pos:   position{line: 725, col: 5, offset: 23116},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23092},
+																		pos: position{line: 726, col: 9, offset: 23136},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23628},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23628},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 740, col: 5, offset: 23628},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23639},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23639},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 740, col: 16, offset: 23639},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 740, col: 23, offset: 23646},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 740, col: 23, offset: 23646},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28196,12 +28196,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 742, col: 8, offset: 23730},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28210,28 +28210,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28240,9 +28240,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28251,30 +28251,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23876},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23876},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 747, col: 5, offset: 23876},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23887},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23887},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 747, col: 16, offset: 23887},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 747, col: 23, offset: 23894},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 747, col: 23, offset: 23894},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28285,12 +28285,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 749, col: 8, offset: 23978},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28299,28 +28299,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28329,9 +28329,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28340,27 +28340,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 760, col: 26, offset: 24364},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
+																					pos: position{line: 760, col: 26, offset: 24364},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24320},
+																							pos:        position{line: 760, col: 26, offset: 24364},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24326},
+																							pos:   position{line: 760, col: 32, offset: 24370},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24456},
+																								pos: position{line: 764, col: 13, offset: 24500},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24457},
+																									pos: position{line: 764, col: 14, offset: 24501},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24457},
+																										pos:        position{line: 764, col: 14, offset: 24501},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -28370,12 +28370,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24346},
+																							pos: position{line: 760, col: 52, offset: 24390},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28384,28 +28384,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28414,9 +28414,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28425,30 +28425,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24123},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24123},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 754, col: 5, offset: 24123},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24134},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24134},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 754, col: 16, offset: 24134},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 754, col: 22, offset: 24140},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 754, col: 22, offset: 24140},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28459,12 +28459,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 756, col: 8, offset: 24224},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28473,28 +28473,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28503,9 +28503,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28514,30 +28514,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24660},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24660},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 769, col: 5, offset: 24660},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24671},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24671},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 769, col: 16, offset: 24671},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 769, col: 23, offset: 24678},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 769, col: 23, offset: 24678},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28548,12 +28548,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 771, col: 8, offset: 24762},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28562,28 +28562,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28592,9 +28592,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28603,30 +28603,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25136},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25136},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 783, col: 5, offset: 25136},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25147},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25147},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 783, col: 16, offset: 25147},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 783, col: 23, offset: 25154},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 783, col: 23, offset: 25154},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28637,12 +28637,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 785, col: 8, offset: 25238},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28651,28 +28651,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28681,9 +28681,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28692,30 +28692,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25388},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25388},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 790, col: 5, offset: 25388},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25399},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25399},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 790, col: 16, offset: 25399},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 790, col: 23, offset: 25406},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 790, col: 23, offset: 25406},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -28726,12 +28726,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 792, col: 8, offset: 25490},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28740,28 +28740,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28770,9 +28770,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28781,30 +28781,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25638},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25638},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 797, col: 5, offset: 25638},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25649},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25649},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 797, col: 16, offset: 25649},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 797, col: 23, offset: 25656},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 797, col: 23, offset: 25656},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -28815,12 +28815,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 799, col: 8, offset: 25740},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28829,28 +28829,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28859,9 +28859,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28870,30 +28870,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25884},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25884},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 804, col: 5, offset: 25884},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25895},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25895},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 804, col: 16, offset: 25895},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 804, col: 23, offset: 25902},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 804, col: 23, offset: 25902},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28904,12 +28904,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 806, col: 8, offset: 25986},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28918,28 +28918,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28948,9 +28948,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -28966,15 +28966,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49008},
+													pos:   position{line: 1512, col: 5, offset: 49052},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2825, col: 14, offset: 89527},
+														pos: position{line: 2825, col: 14, offset: 89571},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2825, col: 14, offset: 89527},
+															pos: position{line: 2825, col: 14, offset: 89571},
 															expr: &charClassMatcher{
-																pos:        position{line: 2825, col: 14, offset: 89527},
+																pos:        position{line: 2825, col: 14, offset: 89571},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28984,28 +28984,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29014,9 +29014,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -29033,28 +29033,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49399},
+			pos:  position{line: 1528, col: 1, offset: 49443},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49424},
+				pos: position{line: 1529, col: 5, offset: 49468},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49424},
+					pos: position{line: 1529, col: 5, offset: 49468},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49424},
+							pos:   position{line: 1529, col: 5, offset: 49468},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49431},
+								pos: position{line: 1529, col: 12, offset: 49475},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49432},
+									pos: position{line: 1529, col: 13, offset: 49476},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49432},
+											pos: position{line: 1529, col: 13, offset: 49476},
 											expr: &actionExpr{
-												pos: position{line: 2875, col: 10, offset: 90934},
+												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2875, col: 10, offset: 90934},
+													pos:        position{line: 2875, col: 10, offset: 90978},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29063,25 +29063,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2884, col: 12, offset: 91105},
+											pos: position{line: 2884, col: 12, offset: 91149},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2884, col: 13, offset: 91106},
+												pos: position{line: 2884, col: 13, offset: 91150},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2884, col: 13, offset: 91106},
+														pos:        position{line: 2884, col: 13, offset: 91150},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2884, col: 20, offset: 91113},
+														pos:        position{line: 2884, col: 20, offset: 91157},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2884, col: 29, offset: 91122},
+														pos:        position{line: 2884, col: 29, offset: 91166},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29094,18 +29094,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49636},
+							pos:        position{line: 1536, col: 27, offset: 49680},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49640},
+							pos: position{line: 1536, col: 31, offset: 49684},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29114,25 +29114,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2884, col: 12, offset: 91105},
+							pos: position{line: 2884, col: 12, offset: 91149},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2884, col: 13, offset: 91106},
+								pos: position{line: 2884, col: 13, offset: 91150},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2884, col: 13, offset: 91106},
+										pos:        position{line: 2884, col: 13, offset: 91150},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2884, col: 20, offset: 91113},
+										pos:        position{line: 2884, col: 20, offset: 91157},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2884, col: 29, offset: 91122},
+										pos:        position{line: 2884, col: 29, offset: 91166},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29141,12 +29141,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49481},
+							pos:   position{line: 1531, col: 5, offset: 49525},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49489},
+								pos: position{line: 1531, col: 13, offset: 49533},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49489},
+									pos:  position{line: 1531, col: 13, offset: 49533},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29157,46 +29157,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49656},
+			pos:  position{line: 1538, col: 1, offset: 49700},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49727},
+				pos: position{line: 1539, col: 5, offset: 49771},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49727},
+					pos: position{line: 1539, col: 5, offset: 49771},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49755},
+							pos: position{line: 1540, col: 5, offset: 49799},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1477, col: 5, offset: 47757},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1570, col: 5, offset: 50691},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1570, col: 5, offset: 50691},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1570, col: 5, offset: 50691},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1577, col: 5, offset: 50899},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1577, col: 5, offset: 50899},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1577, col: 5, offset: 50899},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29205,27 +29205,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1577, col: 12, offset: 50906},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1579, col: 9, offset: 50969},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1579, col: 9, offset: 50969},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1579, col: 9, offset: 50969},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1579, col: 9, offset: 50969},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1579, col: 16, offset: 50976},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1579, col: 16, offset: 50976},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1579, col: 17, offset: 50977},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29234,22 +29234,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1583, col: 9, offset: 51077},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1602, col: 11, offset: 51794},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1602, col: 11, offset: 51794},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1602, col: 11, offset: 51794},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1602, col: 12, offset: 51795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29257,7 +29257,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1602, col: 20, offset: 51803},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29266,20 +29266,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1604, col: 13, offset: 51920},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1604, col: 13, offset: 51920},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1604, col: 14, offset: 51921},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1604, col: 21, offset: 51928},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29288,20 +29288,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1606, col: 13, offset: 52048},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1606, col: 13, offset: 52048},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1606, col: 14, offset: 52049},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1606, col: 21, offset: 52056},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29310,15 +29310,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1608, col: 13, offset: 52176},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1608, col: 13, offset: 52176},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1608, col: 13, offset: 52176},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1608, col: 14, offset: 52177},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29326,7 +29326,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1608, col: 26, offset: 52189},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29335,15 +29335,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1610, col: 13, offset: 52309},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1610, col: 13, offset: 52309},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1610, col: 13, offset: 52309},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1610, col: 14, offset: 52310},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29351,7 +29351,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1610, col: 26, offset: 52322},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29363,12 +29363,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29381,26 +29381,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1571, col: 5, offset: 50730},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49197},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49197},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49206},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49207},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49207},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49207},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29411,28 +29411,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29441,9 +29441,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -29456,27 +29456,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1620, col: 5, offset: 52588},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1620, col: 5, offset: 52588},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1620, col: 5, offset: 52588},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1627, col: 5, offset: 52861},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1627, col: 5, offset: 52861},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1627, col: 5, offset: 52861},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29485,24 +29485,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1628, col: 5, offset: 52873},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1629, col: 9, offset: 52889},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1629, col: 10, offset: 52890},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1629, col: 11, offset: 52891},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1629, col: 18, offset: 52898},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1629, col: 19, offset: 52899},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29513,16 +29513,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1632, col: 7, offset: 52989},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29535,56 +29535,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1621, col: 5, offset: 52629},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1621, col: 16, offset: 52640},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1642, col: 5, offset: 53254},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1642, col: 5, offset: 53254},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1642, col: 5, offset: 53254},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1642, col: 6, offset: 53255},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1642, col: 10, offset: 53259},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1643, col: 7, offset: 53273},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1643, col: 7, offset: 53273},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1643, col: 7, offset: 53273},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1644, col: 7, offset: 53318},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1644, col: 7, offset: 53318},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1645, col: 7, offset: 53361},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1645, col: 7, offset: 53361},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29594,12 +29594,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2879, col: 11, offset: 90995},
+																			pos: position{line: 2879, col: 11, offset: 91039},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2879, col: 11, offset: 90995},
+																				pos:        position{line: 2879, col: 11, offset: 91039},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29613,26 +29613,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1622, col: 5, offset: 52679},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49197},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49197},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49206},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49207},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49207},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49207},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29643,28 +29643,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29673,9 +29673,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -29688,36 +29688,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1711, col: 5, offset: 55189},
+										pos: position{line: 1711, col: 5, offset: 55233},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1711, col: 5, offset: 55189},
+											pos: position{line: 1711, col: 5, offset: 55233},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55189},
+													pos:   position{line: 1711, col: 5, offset: 55233},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1717, col: 5, offset: 55386},
+														pos: position{line: 1717, col: 5, offset: 55430},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1717, col: 5, offset: 55386},
+															pos: position{line: 1717, col: 5, offset: 55430},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1717, col: 5, offset: 55386},
+																	pos:        position{line: 1717, col: 5, offset: 55430},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1717, col: 9, offset: 55390},
+																	pos:   position{line: 1717, col: 9, offset: 55434},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 14, offset: 55395},
+																		pos: position{line: 1717, col: 14, offset: 55439},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1717, col: 14, offset: 55395},
+																			pos: position{line: 1717, col: 14, offset: 55439},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1717, col: 14, offset: 55395},
+																				pos:        position{line: 1717, col: 14, offset: 55439},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29727,18 +29727,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1717, col: 62, offset: 55443},
+																	pos:        position{line: 1717, col: 62, offset: 55487},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29751,26 +29751,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1712, col: 5, offset: 55225},
+													pos:   position{line: 1712, col: 5, offset: 55269},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49197},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49197},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49206},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49207},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49207},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49207},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29781,28 +29781,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29811,9 +29811,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -29826,35 +29826,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1654, col: 5, offset: 53554},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1654, col: 5, offset: 53554},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1654, col: 5, offset: 53554},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1662, col: 5, offset: 53880},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1662, col: 5, offset: 53880},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1662, col: 5, offset: 53880},
 																	expr: &seqExpr{
-																		pos: position{line: 2487, col: 31, offset: 80069},
+																		pos: position{line: 2487, col: 31, offset: 80113},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2487, col: 31, offset: 80069},
+																				pos:        position{line: 2487, col: 31, offset: 80113},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2487, col: 36, offset: 80074},
+																				pos: position{line: 2487, col: 36, offset: 80118},
 																				expr: &litMatcher{
-																					pos:        position{line: 2487, col: 37, offset: 80075},
+																					pos:        position{line: 2487, col: 37, offset: 80119},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -29864,28 +29864,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1663, col: 5, offset: 53868},
+																	pos: position{line: 1663, col: 5, offset: 53912},
 																	expr: &seqExpr{
-																		pos: position{line: 1663, col: 6, offset: 53869},
+																		pos: position{line: 1663, col: 6, offset: 53913},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1663, col: 6, offset: 53869},
+																				pos: position{line: 1663, col: 6, offset: 53913},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54019},
+																					pos: position{line: 1668, col: 5, offset: 54063},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54019},
+																						pos: position{line: 1668, col: 5, offset: 54063},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 5, offset: 54019},
+																								pos:   position{line: 1668, col: 5, offset: 54063},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1668, col: 16, offset: 54030},
+																									pos: position{line: 1668, col: 16, offset: 54074},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1668, col: 16, offset: 54030},
+																										pos: position{line: 1668, col: 16, offset: 54074},
 																										expr: &litMatcher{
-																											pos:        position{line: 1668, col: 17, offset: 54031},
+																											pos:        position{line: 1668, col: 17, offset: 54075},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29894,7 +29894,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1671, col: 5, offset: 54088},
+																								pos: position{line: 1671, col: 5, offset: 54132},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -29902,30 +29902,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1663, col: 35, offset: 53898},
+																				pos: position{line: 1663, col: 35, offset: 53942},
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29934,16 +29934,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1663, col: 40, offset: 53903,
+																				line: 1663, col: 40, offset: 53947,
 																			},
 																		},
 																	},
@@ -29953,24 +29953,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1655, col: 5, offset: 53589},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 54019},
+														pos: position{line: 1668, col: 5, offset: 54063},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1668, col: 5, offset: 54019},
+															pos: position{line: 1668, col: 5, offset: 54063},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1668, col: 5, offset: 54019},
+																	pos:   position{line: 1668, col: 5, offset: 54063},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 16, offset: 54030},
+																		pos: position{line: 1668, col: 16, offset: 54074},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1668, col: 16, offset: 54030},
+																			pos: position{line: 1668, col: 16, offset: 54074},
 																			expr: &litMatcher{
-																				pos:        position{line: 1668, col: 17, offset: 54031},
+																				pos:        position{line: 1668, col: 17, offset: 54075},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -29979,7 +29979,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 5, offset: 54088},
+																	pos: position{line: 1671, col: 5, offset: 54132},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -29987,24 +29987,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1656, col: 5, offset: 53634},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1679, col: 5, offset: 54337},
+														pos: position{line: 1679, col: 5, offset: 54381},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 9, offset: 54403},
+																pos: position{line: 1681, col: 9, offset: 54447},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 9, offset: 54403},
+																	pos: position{line: 1681, col: 9, offset: 54447},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54403},
+																			pos: position{line: 1681, col: 9, offset: 54447},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30013,28 +30013,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30043,34 +30043,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1682, col: 9, offset: 54422},
+																			pos: position{line: 1682, col: 9, offset: 54466},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21533},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21533},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2892, col: 11, offset: 91268},
+																							pos: position{line: 2892, col: 11, offset: 91312},
 																							expr: &anyMatcher{
-																								line: 2892, col: 13, offset: 91270,
+																								line: 2892, col: 13, offset: 91314,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 677, col: 21, offset: 21540},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30079,28 +30079,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30109,9 +30109,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -30124,18 +30124,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54551},
+																pos: position{line: 1688, col: 9, offset: 54595},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54551},
+																	pos: position{line: 1688, col: 9, offset: 54595},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2879, col: 11, offset: 90995},
+																			pos: position{line: 2879, col: 11, offset: 91039},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2879, col: 11, offset: 90995},
+																				pos: position{line: 2879, col: 11, offset: 91039},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 90995},
+																					pos:        position{line: 2879, col: 11, offset: 91039},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30144,15 +30144,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 9, offset: 54624},
+																			pos:   position{line: 1689, col: 9, offset: 54668},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1689, col: 18, offset: 54633},
+																				pos: position{line: 1689, col: 18, offset: 54677},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1689, col: 18, offset: 54633},
+																					pos: position{line: 1689, col: 18, offset: 54677},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1689, col: 18, offset: 54633},
+																						pos:        position{line: 1689, col: 18, offset: 54677},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30162,28 +30162,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30192,9 +30192,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -30212,41 +30212,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49772},
+							pos:   position{line: 1541, col: 5, offset: 49816},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49783},
+								pos: position{line: 1541, col: 16, offset: 49827},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49784},
+									pos:  position{line: 1541, col: 17, offset: 49828},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49806},
+							pos:   position{line: 1542, col: 5, offset: 49850},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49824},
+								pos: position{line: 1543, col: 9, offset: 49868},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21489},
+										pos: position{line: 677, col: 14, offset: 21533},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 677, col: 14, offset: 21533},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2892, col: 11, offset: 91268},
+													pos: position{line: 2892, col: 11, offset: 91312},
 													expr: &anyMatcher{
-														line: 2892, col: 13, offset: 91270,
+														line: 2892, col: 13, offset: 91314,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21496},
+													pos: position{line: 677, col: 21, offset: 21540},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30255,28 +30255,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30285,9 +30285,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -30296,32 +30296,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49844},
+										pos:  position{line: 1544, col: 11, offset: 49888},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 360, col: 19, offset: 10954},
 										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10954},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 360, col: 19, offset: 10954},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 360, col: 24, offset: 10959},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9780},
 														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9780},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30329,9 +30329,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9791},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30344,18 +30344,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 360, col: 45, offset: 10980},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 360, col: 49, offset: 10984},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30364,28 +30364,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30394,9 +30394,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -30405,28 +30405,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 362, col: 9, offset: 11075},
 										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11075},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 362, col: 9, offset: 11075},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 362, col: 13, offset: 11079},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9780},
 														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9780},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9780},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30434,9 +30434,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9791},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30449,18 +30449,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 362, col: 34, offset: 11100},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 362, col: 39, offset: 11105},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30469,28 +30469,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30499,9 +30499,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -30510,36 +30510,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26368},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26368},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 740, col: 5, offset: 23628},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23628},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 740, col: 5, offset: 23628},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 740, col: 16, offset: 23639},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23639},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 740, col: 16, offset: 23639},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 740, col: 23, offset: 23646},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 740, col: 23, offset: 23646},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30550,12 +30550,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 742, col: 8, offset: 23730},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30564,28 +30564,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30594,9 +30594,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -30605,46 +30605,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 821, col: 5, offset: 26399},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 831, col: 5, offset: 26685},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 831, col: 6, offset: 26686},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26686},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 831, col: 6, offset: 26686},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26628},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23628},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23628},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23628},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23639},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23639},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23639},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23646},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23646},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -30655,12 +30655,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23730},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30669,28 +30669,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30699,9 +30699,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -30710,39 +30710,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 832, col: 5, offset: 26716},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30752,28 +30752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30782,9 +30782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -30799,35 +30799,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 822, col: 5, offset: 26433},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 828, col: 29, offset: 26628},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23628},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23628},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23628},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23639},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23639},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23639},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23646},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23646},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -30838,12 +30838,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23730},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30852,28 +30852,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30882,9 +30882,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -30893,9 +30893,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -30905,39 +30905,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26825},
+										pos: position{line: 840, col: 5, offset: 26869},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 840, col: 5, offset: 26869},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26825},
+													pos:   position{line: 840, col: 5, offset: 26869},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23832},
+														pos: position{line: 747, col: 5, offset: 23876},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 747, col: 5, offset: 23876},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23832},
+																	pos:   position{line: 747, col: 5, offset: 23876},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23843},
+																		pos: position{line: 747, col: 16, offset: 23887},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 747, col: 16, offset: 23887},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23843},
+																					pos:        position{line: 747, col: 16, offset: 23887},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23850},
+																					pos: position{line: 747, col: 23, offset: 23894},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23850},
+																						pos:        position{line: 747, col: 23, offset: 23894},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -30948,12 +30948,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23934},
+																	pos: position{line: 749, col: 8, offset: 23978},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30962,28 +30962,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30992,9 +30992,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -31004,56 +31004,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26864},
+													pos: position{line: 841, col: 5, offset: 26908},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26956},
+													pos:   position{line: 844, col: 5, offset: 27000},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27353},
+														pos: position{line: 859, col: 4, offset: 27397},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27354},
+															pos: position{line: 859, col: 5, offset: 27398},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 859, col: 5, offset: 27398},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27354},
+																		pos: position{line: 859, col: 5, offset: 27398},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27196},
+																			pos: position{line: 852, col: 5, offset: 27240},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27196},
+																					pos: position{line: 852, col: 5, offset: 27240},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27196},
+																							pos:   position{line: 852, col: 5, offset: 27240},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 747, col: 5, offset: 23876},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23876},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 747, col: 5, offset: 23876},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 747, col: 16, offset: 23887},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23887},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 747, col: 16, offset: 23887},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 747, col: 23, offset: 23894},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 747, col: 23, offset: 23894},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31064,12 +31064,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 749, col: 8, offset: 23978},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31078,28 +31078,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31108,9 +31108,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -31120,45 +31120,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27227},
+																							pos: position{line: 853, col: 5, offset: 27271},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27384},
+																		pos:   position{line: 860, col: 5, offset: 27428},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31168,28 +31168,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31198,9 +31198,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -31215,44 +31215,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26990},
+													pos:   position{line: 845, col: 5, offset: 27034},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 26994},
+														pos: position{line: 845, col: 9, offset: 27038},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27196},
+															pos: position{line: 852, col: 5, offset: 27240},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27196},
+																	pos: position{line: 852, col: 5, offset: 27240},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27196},
+																			pos:   position{line: 852, col: 5, offset: 27240},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23876},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23876},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 747, col: 5, offset: 23876},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23887},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23887},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 747, col: 16, offset: 23887},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 747, col: 23, offset: 23894},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 747, col: 23, offset: 23894},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31263,12 +31263,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 749, col: 8, offset: 23978},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31277,28 +31277,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31307,9 +31307,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -31319,15 +31319,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27227},
+																			pos: position{line: 853, col: 5, offset: 27271},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -31338,36 +31338,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29676},
+										pos: position{line: 952, col: 5, offset: 29720},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 952, col: 5, offset: 29720},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29676},
+													pos:   position{line: 952, col: 5, offset: 29720},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24320},
+														pos: position{line: 760, col: 26, offset: 24364},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 760, col: 26, offset: 24364},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24320},
+																	pos:        position{line: 760, col: 26, offset: 24364},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24326},
+																	pos:   position{line: 760, col: 32, offset: 24370},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24456},
+																		pos: position{line: 764, col: 13, offset: 24500},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24457},
+																			pos: position{line: 764, col: 14, offset: 24501},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24457},
+																				pos:        position{line: 764, col: 14, offset: 24501},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -31377,12 +31377,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24346},
+																	pos: position{line: 760, col: 52, offset: 24390},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31391,28 +31391,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31421,9 +31421,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -31433,34 +31433,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29722},
+													pos:   position{line: 953, col: 5, offset: 29766},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30195},
+														pos: position{line: 966, col: 5, offset: 30239},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30196},
+															pos: position{line: 966, col: 6, offset: 30240},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 966, col: 6, offset: 30240},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30196},
+																		pos: position{line: 966, col: 6, offset: 30240},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30143},
+																			pos: position{line: 963, col: 34, offset: 30187},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30143},
+																					pos:        position{line: 963, col: 34, offset: 30187},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30149},
+																					pos: position{line: 963, col: 40, offset: 30193},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31469,28 +31469,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31499,9 +31499,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -31510,30 +31510,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30231},
+																		pos:   position{line: 967, col: 5, offset: 30275},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31543,28 +31543,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31573,9 +31573,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -31590,23 +31590,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29761},
+													pos: position{line: 954, col: 5, offset: 29805},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30143},
+														pos: position{line: 963, col: 34, offset: 30187},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30143},
+																pos:        position{line: 963, col: 34, offset: 30187},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30149},
+																pos: position{line: 963, col: 40, offset: 30193},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31615,28 +31615,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31645,9 +31645,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -31659,39 +31659,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27537},
+										pos: position{line: 868, col: 5, offset: 27581},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 868, col: 5, offset: 27581},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27537},
+													pos:   position{line: 868, col: 5, offset: 27581},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24079},
+														pos: position{line: 754, col: 5, offset: 24123},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 754, col: 5, offset: 24123},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24079},
+																	pos:   position{line: 754, col: 5, offset: 24123},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24090},
+																		pos: position{line: 754, col: 16, offset: 24134},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 754, col: 16, offset: 24134},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24090},
+																					pos:        position{line: 754, col: 16, offset: 24134},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24096},
+																					pos: position{line: 754, col: 22, offset: 24140},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24096},
+																						pos:        position{line: 754, col: 22, offset: 24140},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -31702,12 +31702,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24180},
+																	pos: position{line: 756, col: 8, offset: 24224},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31716,28 +31716,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31746,9 +31746,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -31758,56 +31758,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27575},
+													pos: position{line: 869, col: 5, offset: 27619},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27667},
+													pos:   position{line: 872, col: 5, offset: 27711},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28057},
+														pos: position{line: 887, col: 5, offset: 28101},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28058},
+															pos: position{line: 887, col: 6, offset: 28102},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 887, col: 6, offset: 28102},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28058},
+																		pos: position{line: 887, col: 6, offset: 28102},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27901},
+																			pos: position{line: 880, col: 5, offset: 27945},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27901},
+																					pos: position{line: 880, col: 5, offset: 27945},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27901},
+																							pos:   position{line: 880, col: 5, offset: 27945},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 754, col: 5, offset: 24123},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24123},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 754, col: 5, offset: 24123},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 754, col: 16, offset: 24134},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24134},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 754, col: 16, offset: 24134},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 754, col: 22, offset: 24140},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 754, col: 22, offset: 24140},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -31818,12 +31818,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 756, col: 8, offset: 24224},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31832,28 +31832,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31862,9 +31862,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -31874,45 +31874,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27931},
+																							pos: position{line: 881, col: 5, offset: 27975},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28087},
+																		pos:   position{line: 888, col: 5, offset: 28131},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31922,28 +31922,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31952,9 +31952,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -31969,44 +31969,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27700},
+													pos:   position{line: 873, col: 5, offset: 27744},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27704},
+														pos: position{line: 873, col: 9, offset: 27748},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27901},
+															pos: position{line: 880, col: 5, offset: 27945},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27901},
+																	pos: position{line: 880, col: 5, offset: 27945},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27901},
+																			pos:   position{line: 880, col: 5, offset: 27945},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24123},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24123},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 754, col: 5, offset: 24123},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24134},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24134},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 754, col: 16, offset: 24134},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 754, col: 22, offset: 24140},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 754, col: 22, offset: 24140},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32017,12 +32017,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 756, col: 8, offset: 24224},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32031,28 +32031,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32061,9 +32061,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -32073,15 +32073,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27931},
+																			pos: position{line: 881, col: 5, offset: 27975},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -32092,39 +32092,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28242},
+										pos: position{line: 896, col: 5, offset: 28286},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 896, col: 5, offset: 28286},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28242},
+													pos:   position{line: 896, col: 5, offset: 28286},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24616},
+														pos: position{line: 769, col: 5, offset: 24660},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 769, col: 5, offset: 24660},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24616},
+																	pos:   position{line: 769, col: 5, offset: 24660},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24627},
+																		pos: position{line: 769, col: 16, offset: 24671},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 769, col: 16, offset: 24671},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24627},
+																					pos:        position{line: 769, col: 16, offset: 24671},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24634},
+																					pos: position{line: 769, col: 23, offset: 24678},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24634},
+																						pos:        position{line: 769, col: 23, offset: 24678},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32135,12 +32135,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24718},
+																	pos: position{line: 771, col: 8, offset: 24762},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32149,28 +32149,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32179,9 +32179,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -32191,56 +32191,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28281},
+													pos: position{line: 897, col: 5, offset: 28325},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28373},
+													pos:   position{line: 900, col: 5, offset: 28417},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28771},
+														pos: position{line: 915, col: 5, offset: 28815},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28772},
+															pos: position{line: 915, col: 6, offset: 28816},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 915, col: 6, offset: 28816},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28772},
+																		pos: position{line: 915, col: 6, offset: 28816},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28613},
+																			pos: position{line: 908, col: 5, offset: 28657},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28613},
+																					pos: position{line: 908, col: 5, offset: 28657},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28613},
+																							pos:   position{line: 908, col: 5, offset: 28657},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 769, col: 5, offset: 24660},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24660},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 769, col: 5, offset: 24660},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 769, col: 16, offset: 24671},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24671},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 769, col: 16, offset: 24671},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 769, col: 23, offset: 24678},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 769, col: 23, offset: 24678},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32251,12 +32251,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 771, col: 8, offset: 24762},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32265,28 +32265,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32295,9 +32295,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -32307,45 +32307,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28644},
+																							pos: position{line: 909, col: 5, offset: 28688},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28802},
+																		pos:   position{line: 916, col: 5, offset: 28846},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32355,28 +32355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32385,9 +32385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -32402,44 +32402,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28407},
+													pos:   position{line: 901, col: 5, offset: 28451},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28411},
+														pos: position{line: 901, col: 9, offset: 28455},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28613},
+															pos: position{line: 908, col: 5, offset: 28657},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28613},
+																	pos: position{line: 908, col: 5, offset: 28657},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28613},
+																			pos:   position{line: 908, col: 5, offset: 28657},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24660},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24660},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 769, col: 5, offset: 24660},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24671},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24671},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 769, col: 16, offset: 24671},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 769, col: 23, offset: 24678},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 769, col: 23, offset: 24678},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32450,12 +32450,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 771, col: 8, offset: 24762},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32464,28 +32464,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32494,9 +32494,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -32506,15 +32506,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28644},
+																			pos: position{line: 909, col: 5, offset: 28688},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -32525,39 +32525,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28957},
+										pos: position{line: 924, col: 5, offset: 29001},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 924, col: 5, offset: 29001},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28957},
+													pos:   position{line: 924, col: 5, offset: 29001},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25092},
+														pos: position{line: 783, col: 5, offset: 25136},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 783, col: 5, offset: 25136},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25092},
+																	pos:   position{line: 783, col: 5, offset: 25136},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25103},
+																		pos: position{line: 783, col: 16, offset: 25147},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 783, col: 16, offset: 25147},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25103},
+																					pos:        position{line: 783, col: 16, offset: 25147},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25110},
+																					pos: position{line: 783, col: 23, offset: 25154},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25110},
+																						pos:        position{line: 783, col: 23, offset: 25154},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32568,12 +32568,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25194},
+																	pos: position{line: 785, col: 8, offset: 25238},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32582,28 +32582,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32612,9 +32612,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -32624,56 +32624,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 28996},
+													pos: position{line: 925, col: 5, offset: 29040},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29088},
+													pos:   position{line: 928, col: 5, offset: 29132},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29486},
+														pos: position{line: 943, col: 5, offset: 29530},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29487},
+															pos: position{line: 943, col: 6, offset: 29531},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 943, col: 6, offset: 29531},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29487},
+																		pos: position{line: 943, col: 6, offset: 29531},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29328},
+																			pos: position{line: 936, col: 5, offset: 29372},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29328},
+																					pos: position{line: 936, col: 5, offset: 29372},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29328},
+																							pos:   position{line: 936, col: 5, offset: 29372},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 783, col: 5, offset: 25136},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25136},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 783, col: 5, offset: 25136},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 783, col: 16, offset: 25147},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25147},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 783, col: 16, offset: 25147},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 783, col: 23, offset: 25154},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 783, col: 23, offset: 25154},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -32684,12 +32684,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 785, col: 8, offset: 25238},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32698,28 +32698,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32728,9 +32728,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -32740,45 +32740,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29359},
+																							pos: position{line: 937, col: 5, offset: 29403},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29517},
+																		pos:   position{line: 944, col: 5, offset: 29561},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32788,28 +32788,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32818,9 +32818,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -32835,44 +32835,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29122},
+													pos:   position{line: 929, col: 5, offset: 29166},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29126},
+														pos: position{line: 929, col: 9, offset: 29170},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29328},
+															pos: position{line: 936, col: 5, offset: 29372},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29328},
+																	pos: position{line: 936, col: 5, offset: 29372},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29328},
+																			pos:   position{line: 936, col: 5, offset: 29372},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25136},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25136},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 783, col: 5, offset: 25136},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25147},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25147},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 783, col: 16, offset: 25147},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 783, col: 23, offset: 25154},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 783, col: 23, offset: 25154},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -32883,12 +32883,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 785, col: 8, offset: 25238},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32897,28 +32897,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32927,9 +32927,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -32939,15 +32939,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29359},
+																			pos: position{line: 937, col: 5, offset: 29403},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -32958,41 +32958,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30400},
+										pos: position{line: 975, col: 5, offset: 30444},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 975, col: 5, offset: 30444},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30400},
+													pos:   position{line: 975, col: 5, offset: 30444},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30659},
+														pos: position{line: 982, col: 5, offset: 30703},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 982, col: 5, offset: 30703},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 982, col: 5, offset: 30703},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21533},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2892, col: 11, offset: 91268},
+																					pos: position{line: 2892, col: 11, offset: 91312},
 																					expr: &anyMatcher{
-																						line: 2892, col: 13, offset: 91270,
+																						line: 2892, col: 13, offset: 91314,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33001,28 +33001,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33031,9 +33031,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -33043,21 +33043,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30674},
+																	pos:        position{line: 983, col: 5, offset: 30718},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30684},
+																	pos:   position{line: 984, col: 5, offset: 30728},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2825, col: 14, offset: 89527},
+																		pos: position{line: 2825, col: 14, offset: 89571},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2825, col: 14, offset: 89527},
+																			pos: position{line: 2825, col: 14, offset: 89571},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2825, col: 14, offset: 89527},
+																				pos:        position{line: 2825, col: 14, offset: 89571},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33067,28 +33067,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33097,9 +33097,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -33109,40 +33109,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30437},
+													pos:   position{line: 976, col: 5, offset: 30481},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30448},
+														pos: position{line: 976, col: 16, offset: 30492},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30449},
+															pos: position{line: 976, col: 17, offset: 30493},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 982, col: 5, offset: 30703},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 982, col: 5, offset: 30703},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30659},
+																				pos: position{line: 982, col: 5, offset: 30703},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21533},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 677, col: 14, offset: 21533},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2892, col: 11, offset: 91268},
+																								pos: position{line: 2892, col: 11, offset: 91312},
 																								expr: &anyMatcher{
-																									line: 2892, col: 13, offset: 91270,
+																									line: 2892, col: 13, offset: 91314,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21496},
+																								pos: position{line: 677, col: 21, offset: 21540},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33151,28 +33151,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33181,9 +33181,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -33193,21 +33193,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30674},
+																				pos:        position{line: 983, col: 5, offset: 30718},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30684},
+																				pos:   position{line: 984, col: 5, offset: 30728},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2825, col: 14, offset: 89527},
+																					pos: position{line: 2825, col: 14, offset: 89571},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2825, col: 14, offset: 89527},
+																						pos: position{line: 2825, col: 14, offset: 89571},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 14, offset: 89527},
+																							pos:        position{line: 2825, col: 14, offset: 89571},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33217,28 +33217,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91332},
+																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91105},
+																						pos: position{line: 2884, col: 12, offset: 91149},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91106},
+																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91106},
+																									pos:        position{line: 2884, col: 13, offset: 91150},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91113},
+																									pos:        position{line: 2884, col: 20, offset: 91157},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91122},
+																									pos:        position{line: 2884, col: 29, offset: 91166},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33247,9 +33247,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -33258,21 +33258,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1786, col: 5, offset: 57699},
+																	pos: position{line: 1786, col: 5, offset: 57743},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1786, col: 5, offset: 57699},
+																		pos: position{line: 1786, col: 5, offset: 57743},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1786, col: 5, offset: 57699},
+																				pos:   position{line: 1786, col: 5, offset: 57743},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2825, col: 14, offset: 89527},
+																					pos: position{line: 2825, col: 14, offset: 89571},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2825, col: 14, offset: 89527},
+																						pos: position{line: 2825, col: 14, offset: 89571},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 14, offset: 89527},
+																							pos:        position{line: 2825, col: 14, offset: 89571},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33282,32 +33282,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1787, col: 5, offset: 57723},
+																				pos: position{line: 1787, col: 5, offset: 57767},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91332},
+																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91105},
+																						pos: position{line: 2884, col: 12, offset: 91149},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91106},
+																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91106},
+																									pos:        position{line: 2884, col: 13, offset: 91150},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91113},
+																									pos:        position{line: 2884, col: 20, offset: 91157},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91122},
+																									pos:        position{line: 2884, col: 29, offset: 91166},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33316,9 +33316,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -33334,28 +33334,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30949},
+										pos: position{line: 997, col: 5, offset: 30993},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 997, col: 5, offset: 30993},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30949},
+													pos:   position{line: 997, col: 5, offset: 30993},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24861},
+														pos: position{line: 776, col: 5, offset: 24905},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24905},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24861},
+																	pos:   position{line: 776, col: 5, offset: 24905},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24872},
+																		pos: position{line: 776, col: 16, offset: 24916},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24872},
+																			pos:        position{line: 776, col: 16, offset: 24916},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33363,12 +33363,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24949},
+																	pos: position{line: 778, col: 8, offset: 24993},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33377,28 +33377,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33407,9 +33407,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -33419,35 +33419,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30985},
+													pos:   position{line: 998, col: 5, offset: 31029},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31253},
+														pos: position{line: 1008, col: 5, offset: 31297},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31254},
+															pos: position{line: 1008, col: 6, offset: 31298},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1008, col: 6, offset: 31298},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31254},
+																		pos: position{line: 1008, col: 6, offset: 31298},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31202},
+																			pos: position{line: 1005, col: 26, offset: 31246},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24861},
+																					pos: position{line: 776, col: 5, offset: 24905},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 776, col: 5, offset: 24905},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24861},
+																								pos:   position{line: 776, col: 5, offset: 24905},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24872},
+																									pos: position{line: 776, col: 16, offset: 24916},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24872},
+																										pos:        position{line: 776, col: 16, offset: 24916},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33455,12 +33455,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24949},
+																								pos: position{line: 778, col: 8, offset: 24993},
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90934},
+																									pos: position{line: 2875, col: 10, offset: 90978},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90934},
+																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33469,28 +33469,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91332},
+																								pos: position{line: 2897, col: 8, offset: 91376},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91105},
+																										pos: position{line: 2884, col: 12, offset: 91149},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91106},
+																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91106},
+																													pos:        position{line: 2884, col: 13, offset: 91150},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91113},
+																													pos:        position{line: 2884, col: 20, offset: 91157},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91122},
+																													pos:        position{line: 2884, col: 29, offset: 91166},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33499,9 +33499,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91282},
+																										pos: position{line: 2894, col: 8, offset: 91326},
 																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91283,
+																											line: 2894, col: 9, offset: 91327,
 																										},
 																									},
 																								},
@@ -33510,39 +33510,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31281},
+																		pos:   position{line: 1009, col: 5, offset: 31325},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33552,28 +33552,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33582,9 +33582,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -33599,27 +33599,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31016},
+													pos:   position{line: 999, col: 5, offset: 31060},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31020},
+														pos: position{line: 999, col: 9, offset: 31064},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31202},
+															pos: position{line: 1005, col: 26, offset: 31246},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24861},
+																	pos: position{line: 776, col: 5, offset: 24905},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 776, col: 5, offset: 24905},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24861},
+																				pos:   position{line: 776, col: 5, offset: 24905},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24872},
+																					pos: position{line: 776, col: 16, offset: 24916},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24872},
+																						pos:        position{line: 776, col: 16, offset: 24916},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33627,12 +33627,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24949},
+																				pos: position{line: 778, col: 8, offset: 24993},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33641,28 +33641,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91332},
+																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91105},
+																						pos: position{line: 2884, col: 12, offset: 91149},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91106},
+																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91106},
+																									pos:        position{line: 2884, col: 13, offset: 91150},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91113},
+																									pos:        position{line: 2884, col: 20, offset: 91157},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91122},
+																									pos:        position{line: 2884, col: 29, offset: 91166},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33671,9 +33671,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -33682,9 +33682,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -33695,39 +33695,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31444},
+										pos: position{line: 1017, col: 5, offset: 31488},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1017, col: 5, offset: 31488},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31444},
+													pos:   position{line: 1017, col: 5, offset: 31488},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25344},
+														pos: position{line: 790, col: 5, offset: 25388},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 790, col: 5, offset: 25388},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25344},
+																	pos:   position{line: 790, col: 5, offset: 25388},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25355},
+																		pos: position{line: 790, col: 16, offset: 25399},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 790, col: 16, offset: 25399},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25355},
+																					pos:        position{line: 790, col: 16, offset: 25399},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25362},
+																					pos: position{line: 790, col: 23, offset: 25406},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25362},
+																						pos:        position{line: 790, col: 23, offset: 25406},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -33738,12 +33738,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25446},
+																	pos: position{line: 792, col: 8, offset: 25490},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33752,28 +33752,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33782,9 +33782,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -33794,56 +33794,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31487},
+													pos: position{line: 1018, col: 5, offset: 31531},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31579},
+													pos:   position{line: 1021, col: 5, offset: 31623},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32009},
+														pos: position{line: 1036, col: 5, offset: 32053},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32010},
+															pos: position{line: 1036, col: 6, offset: 32054},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1036, col: 6, offset: 32054},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32010},
+																		pos: position{line: 1036, col: 6, offset: 32054},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31843},
+																			pos: position{line: 1029, col: 5, offset: 31887},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31843},
+																					pos: position{line: 1029, col: 5, offset: 31887},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31843},
+																							pos:   position{line: 1029, col: 5, offset: 31887},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 790, col: 5, offset: 25388},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25388},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 790, col: 5, offset: 25388},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 790, col: 16, offset: 25399},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25399},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 790, col: 16, offset: 25399},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 790, col: 23, offset: 25406},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 790, col: 23, offset: 25406},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -33854,12 +33854,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 792, col: 8, offset: 25490},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33868,28 +33868,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33898,9 +33898,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -33910,45 +33910,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31878},
+																							pos: position{line: 1030, col: 5, offset: 31922},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32044},
+																		pos:   position{line: 1037, col: 5, offset: 32088},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33958,28 +33958,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33988,9 +33988,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -34005,44 +34005,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31617},
+													pos:   position{line: 1022, col: 5, offset: 31661},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31621},
+														pos: position{line: 1022, col: 9, offset: 31665},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31843},
+															pos: position{line: 1029, col: 5, offset: 31887},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31843},
+																	pos: position{line: 1029, col: 5, offset: 31887},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31843},
+																			pos:   position{line: 1029, col: 5, offset: 31887},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25388},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25388},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 790, col: 5, offset: 25388},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25399},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25399},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 790, col: 16, offset: 25399},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 790, col: 23, offset: 25406},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 790, col: 23, offset: 25406},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34053,12 +34053,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 792, col: 8, offset: 25490},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34067,28 +34067,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34097,9 +34097,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -34109,15 +34109,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31878},
+																			pos: position{line: 1030, col: 5, offset: 31922},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -34128,39 +34128,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32195},
+										pos: position{line: 1045, col: 5, offset: 32239},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1045, col: 5, offset: 32239},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32195},
+													pos:   position{line: 1045, col: 5, offset: 32239},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25594},
+														pos: position{line: 797, col: 5, offset: 25638},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 797, col: 5, offset: 25638},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25594},
+																	pos:   position{line: 797, col: 5, offset: 25638},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25605},
+																		pos: position{line: 797, col: 16, offset: 25649},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 797, col: 16, offset: 25649},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25605},
+																					pos:        position{line: 797, col: 16, offset: 25649},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25612},
+																					pos: position{line: 797, col: 23, offset: 25656},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25612},
+																						pos:        position{line: 797, col: 23, offset: 25656},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34171,12 +34171,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25696},
+																	pos: position{line: 799, col: 8, offset: 25740},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34185,28 +34185,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34215,9 +34215,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -34227,56 +34227,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32232},
+													pos: position{line: 1046, col: 5, offset: 32276},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32324},
+													pos:   position{line: 1049, col: 5, offset: 32368},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32705},
+														pos: position{line: 1064, col: 4, offset: 32749},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32706},
+															pos: position{line: 1064, col: 5, offset: 32750},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1064, col: 5, offset: 32750},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32706},
+																		pos: position{line: 1064, col: 5, offset: 32750},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32552},
+																			pos: position{line: 1057, col: 5, offset: 32596},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32552},
+																					pos: position{line: 1057, col: 5, offset: 32596},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32552},
+																							pos:   position{line: 1057, col: 5, offset: 32596},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 797, col: 5, offset: 25638},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25638},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 797, col: 5, offset: 25638},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 797, col: 16, offset: 25649},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25649},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 797, col: 16, offset: 25649},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 797, col: 23, offset: 25656},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 797, col: 23, offset: 25656},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34287,12 +34287,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 799, col: 8, offset: 25740},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34301,28 +34301,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34331,9 +34331,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -34343,45 +34343,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32581},
+																							pos: position{line: 1058, col: 5, offset: 32625},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32734},
+																		pos:   position{line: 1065, col: 5, offset: 32778},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34391,28 +34391,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34421,9 +34421,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -34438,44 +34438,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32356},
+													pos:   position{line: 1050, col: 5, offset: 32400},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32360},
+														pos: position{line: 1050, col: 9, offset: 32404},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32552},
+															pos: position{line: 1057, col: 5, offset: 32596},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32552},
+																	pos: position{line: 1057, col: 5, offset: 32596},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32552},
+																			pos:   position{line: 1057, col: 5, offset: 32596},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25638},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25638},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 797, col: 5, offset: 25638},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25649},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25649},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 797, col: 16, offset: 25649},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 797, col: 23, offset: 25656},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 797, col: 23, offset: 25656},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34486,12 +34486,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 799, col: 8, offset: 25740},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34500,28 +34500,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34530,9 +34530,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -34542,15 +34542,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32581},
+																			pos: position{line: 1058, col: 5, offset: 32625},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -34561,39 +34561,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32889},
+										pos: position{line: 1073, col: 5, offset: 32933},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1073, col: 5, offset: 32933},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32889},
+													pos:   position{line: 1073, col: 5, offset: 32933},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25840},
+														pos: position{line: 804, col: 5, offset: 25884},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 804, col: 5, offset: 25884},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25840},
+																	pos:   position{line: 804, col: 5, offset: 25884},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25851},
+																		pos: position{line: 804, col: 16, offset: 25895},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 804, col: 16, offset: 25895},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25851},
+																					pos:        position{line: 804, col: 16, offset: 25895},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25858},
+																					pos: position{line: 804, col: 23, offset: 25902},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25858},
+																						pos:        position{line: 804, col: 23, offset: 25902},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34604,12 +34604,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25942},
+																	pos: position{line: 806, col: 8, offset: 25986},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34618,28 +34618,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34648,9 +34648,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -34660,56 +34660,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32928},
+													pos: position{line: 1074, col: 5, offset: 32972},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33020},
+													pos:   position{line: 1077, col: 5, offset: 33064},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33417},
+														pos: position{line: 1092, col: 4, offset: 33461},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33418},
+															pos: position{line: 1092, col: 5, offset: 33462},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1092, col: 5, offset: 33462},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33418},
+																		pos: position{line: 1092, col: 5, offset: 33462},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33260},
+																			pos: position{line: 1085, col: 5, offset: 33304},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33260},
+																					pos: position{line: 1085, col: 5, offset: 33304},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33260},
+																							pos:   position{line: 1085, col: 5, offset: 33304},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 804, col: 5, offset: 25884},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25884},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 804, col: 5, offset: 25884},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 804, col: 16, offset: 25895},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25895},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 804, col: 16, offset: 25895},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 804, col: 23, offset: 25902},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 804, col: 23, offset: 25902},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -34720,12 +34720,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 806, col: 8, offset: 25986},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34734,28 +34734,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34764,9 +34764,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -34776,45 +34776,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33291},
+																							pos: position{line: 1086, col: 5, offset: 33335},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33448},
+																		pos:   position{line: 1093, col: 5, offset: 33492},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26132},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26132},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2892, col: 11, offset: 91268},
+																						pos: position{line: 2892, col: 11, offset: 91312},
 																						expr: &anyMatcher{
-																							line: 2892, col: 13, offset: 91270,
+																							line: 2892, col: 13, offset: 91314,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26207},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2821, col: 13, offset: 89460},
+																							pos: position{line: 2821, col: 13, offset: 89504},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2821, col: 13, offset: 89460},
+																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 13, offset: 89460},
+																									pos:        position{line: 2821, col: 13, offset: 89504},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34824,28 +34824,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34854,9 +34854,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -34871,44 +34871,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33054},
+													pos:   position{line: 1078, col: 5, offset: 33098},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33058},
+														pos: position{line: 1078, col: 9, offset: 33102},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33260},
+															pos: position{line: 1085, col: 5, offset: 33304},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33260},
+																	pos: position{line: 1085, col: 5, offset: 33304},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33260},
+																			pos:   position{line: 1085, col: 5, offset: 33304},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25884},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25884},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 804, col: 5, offset: 25884},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25895},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25895},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 804, col: 16, offset: 25895},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 804, col: 23, offset: 25902},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 804, col: 23, offset: 25902},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -34919,12 +34919,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 806, col: 8, offset: 25986},
 																							expr: &actionExpr{
-																								pos: position{line: 2875, col: 10, offset: 90934},
+																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2875, col: 10, offset: 90934},
+																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34933,28 +34933,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2897, col: 8, offset: 91332},
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91105},
+																									pos: position{line: 2884, col: 12, offset: 91149},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2884, col: 13, offset: 91106},
+																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 13, offset: 91106},
+																												pos:        position{line: 2884, col: 13, offset: 91150},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 20, offset: 91113},
+																												pos:        position{line: 2884, col: 20, offset: 91157},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2884, col: 29, offset: 91122},
+																												pos:        position{line: 2884, col: 29, offset: 91166},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34963,9 +34963,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2894, col: 8, offset: 91282},
+																									pos: position{line: 2894, col: 8, offset: 91326},
 																									expr: &anyMatcher{
-																										line: 2894, col: 9, offset: 91283,
+																										line: 2894, col: 9, offset: 91327,
 																									},
 																								},
 																							},
@@ -34975,15 +34975,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33291},
+																			pos: position{line: 1086, col: 5, offset: 33335},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -34994,52 +34994,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2720, col: 18, offset: 86524},
+										pos: position{line: 2720, col: 18, offset: 86568},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2720, col: 18, offset: 86524},
+											pos: position{line: 2720, col: 18, offset: 86568},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2721, col: 9, offset: 86534},
+													pos: position{line: 2721, col: 9, offset: 86578},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2721, col: 9, offset: 86534},
+															pos:        position{line: 2721, col: 9, offset: 86578},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2722, col: 11, offset: 86570},
+															pos:        position{line: 2722, col: 11, offset: 86614},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2722, col: 19, offset: 86578},
+															pos:        position{line: 2722, col: 19, offset: 86622},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2722, col: 29, offset: 86588},
+															pos:        position{line: 2722, col: 29, offset: 86632},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2722, col: 37, offset: 86596},
+															pos:        position{line: 2722, col: 37, offset: 86640},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2722, col: 47, offset: 86606},
+															pos:        position{line: 2722, col: 47, offset: 86650},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2722, col: 55, offset: 86614},
+															pos:        position{line: 2722, col: 55, offset: 86658},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35047,12 +35047,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2723, col: 11, offset: 86672},
+													pos: position{line: 2723, col: 11, offset: 86716},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35061,28 +35061,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35091,36 +35091,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35129,9 +35129,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -35140,28 +35140,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 49986},
+										pos:  position{line: 1548, col: 11, offset: 50030},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2611, col: 5, offset: 83460},
+										pos: position{line: 2611, col: 5, offset: 83504},
 										run: (*parser).callonListContinuationElement1327,
 										expr: &seqExpr{
-											pos: position{line: 2611, col: 5, offset: 83460},
+											pos: position{line: 2611, col: 5, offset: 83504},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2617, col: 19, offset: 83617},
+													pos:        position{line: 2617, col: 19, offset: 83661},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2617, col: 26, offset: 83624},
+													pos: position{line: 2617, col: 26, offset: 83668},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonListContinuationElement1331,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35170,28 +35170,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement1334,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35200,40 +35200,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2612, col: 5, offset: 83484},
+													pos:   position{line: 2612, col: 5, offset: 83528},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2612, col: 11, offset: 83490},
+														pos: position{line: 2612, col: 11, offset: 83534},
 														expr: &choiceExpr{
-															pos: position{line: 2612, col: 12, offset: 83491},
+															pos: position{line: 2612, col: 12, offset: 83535},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21489},
+																	pos: position{line: 677, col: 14, offset: 21533},
 																	run: (*parser).callonListContinuationElement1344,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21533},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2892, col: 11, offset: 91268},
+																				pos: position{line: 2892, col: 11, offset: 91312},
 																				expr: &anyMatcher{
-																					line: 2892, col: 13, offset: 91270,
+																					line: 2892, col: 13, offset: 91314,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21496},
+																				pos: position{line: 677, col: 21, offset: 21540},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonListContinuationElement1349,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35242,28 +35242,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91332},
+																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91105},
+																						pos: position{line: 2884, col: 12, offset: 91149},
 																						run: (*parser).callonListContinuationElement1352,
 																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91106},
+																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91106},
+																									pos:        position{line: 2884, col: 13, offset: 91150},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91113},
+																									pos:        position{line: 2884, col: 20, offset: 91157},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91122},
+																									pos:        position{line: 2884, col: 29, offset: 91166},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35272,9 +35272,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91282},
+																						pos: position{line: 2894, col: 8, offset: 91326},
 																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91283,
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -35283,32 +35283,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2624, col: 5, offset: 83736},
+																	pos: position{line: 2624, col: 5, offset: 83780},
 																	run: (*parser).callonListContinuationElement1359,
 																	expr: &seqExpr{
-																		pos: position{line: 2624, col: 5, offset: 83736},
+																		pos: position{line: 2624, col: 5, offset: 83780},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2624, col: 5, offset: 83736},
+																				pos: position{line: 2624, col: 5, offset: 83780},
 																				expr: &choiceExpr{
-																					pos: position{line: 2621, col: 22, offset: 83697},
+																					pos: position{line: 2621, col: 22, offset: 83741},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2617, col: 19, offset: 83617},
+																							pos: position{line: 2617, col: 19, offset: 83661},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2617, col: 19, offset: 83617},
+																									pos:        position{line: 2617, col: 19, offset: 83661},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2617, col: 26, offset: 83624},
+																									pos: position{line: 2617, col: 26, offset: 83668},
 																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90934},
+																										pos: position{line: 2875, col: 10, offset: 90978},
 																										run: (*parser).callonListContinuationElement1366,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90934},
+																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35317,28 +35317,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91332},
+																									pos: position{line: 2897, col: 8, offset: 91376},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91105},
+																											pos: position{line: 2884, col: 12, offset: 91149},
 																											run: (*parser).callonListContinuationElement1369,
 																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91106},
+																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91106},
+																														pos:        position{line: 2884, col: 13, offset: 91150},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91113},
+																														pos:        position{line: 2884, col: 20, offset: 91157},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91122},
+																														pos:        position{line: 2884, col: 29, offset: 91166},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35347,9 +35347,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91282},
+																											pos: position{line: 2894, col: 8, offset: 91326},
 																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91283,
+																												line: 2894, col: 9, offset: 91327,
 																											},
 																										},
 																									},
@@ -35357,59 +35357,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2625, col: 5, offset: 83759},
+																				pos:   position{line: 2625, col: 5, offset: 83803},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2626, col: 9, offset: 83777},
+																					pos: position{line: 2626, col: 9, offset: 83821},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2626, col: 10, offset: 83778},
+																							pos: position{line: 2626, col: 10, offset: 83822},
 																							run: (*parser).callonListContinuationElement1380,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2626, col: 10, offset: 83778},
+																								pos:   position{line: 2626, col: 10, offset: 83822},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2626, col: 17, offset: 83785},
+																									pos: position{line: 2626, col: 17, offset: 83829},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2634, col: 21, offset: 83981},
+																											pos: position{line: 2634, col: 21, offset: 84025},
 																											run: (*parser).callonListContinuationElement1383,
 																											expr: &seqExpr{
-																												pos: position{line: 2634, col: 21, offset: 83981},
+																												pos: position{line: 2634, col: 21, offset: 84025},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2634, col: 21, offset: 83981},
+																														pos:   position{line: 2634, col: 21, offset: 84025},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2634, col: 27, offset: 83987},
+																															pos: position{line: 2634, col: 27, offset: 84031},
 																															expr: &actionExpr{
-																																pos: position{line: 2639, col: 5, offset: 84062},
+																																pos: position{line: 2639, col: 5, offset: 84106},
 																																run: (*parser).callonListContinuationElement1387,
 																																expr: &seqExpr{
-																																	pos: position{line: 2639, col: 5, offset: 84062},
+																																	pos: position{line: 2639, col: 5, offset: 84106},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2639, col: 5, offset: 84062},
+																																			pos:        position{line: 2639, col: 5, offset: 84106},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2639, col: 9, offset: 84066},
+																																			pos: position{line: 2639, col: 9, offset: 84110},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2875, col: 10, offset: 90934},
+																																				pos: position{line: 2875, col: 10, offset: 90978},
 																																				run: (*parser).callonListContinuationElement1391,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2875, col: 10, offset: 90934},
+																																					pos:        position{line: 2875, col: 10, offset: 90978},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35418,21 +35418,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2639, col: 16, offset: 84073},
+																																			pos:   position{line: 2639, col: 16, offset: 84117},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2645, col: 5, offset: 84273},
+																																				pos: position{line: 2645, col: 5, offset: 84317},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2645, col: 5, offset: 84273},
+																																					pos:   position{line: 2645, col: 5, offset: 84317},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2645, col: 14, offset: 84282},
+																																						pos: position{line: 2645, col: 14, offset: 84326},
 																																						run: (*parser).callonListContinuationElement1396,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2645, col: 14, offset: 84282},
+																																							pos: position{line: 2645, col: 14, offset: 84326},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2645, col: 14, offset: 84282},
+																																								pos:        position{line: 2645, col: 14, offset: 84326},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35449,28 +35449,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2897, col: 8, offset: 91332},
+																														pos: position{line: 2897, col: 8, offset: 91376},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2884, col: 12, offset: 91105},
+																																pos: position{line: 2884, col: 12, offset: 91149},
 																																run: (*parser).callonListContinuationElement1400,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2884, col: 13, offset: 91106},
+																																	pos: position{line: 2884, col: 13, offset: 91150},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2884, col: 13, offset: 91106},
+																																			pos:        position{line: 2884, col: 13, offset: 91150},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2884, col: 20, offset: 91113},
+																																			pos:        position{line: 2884, col: 20, offset: 91157},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2884, col: 29, offset: 91122},
+																																			pos:        position{line: 2884, col: 29, offset: 91166},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35479,9 +35479,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2894, col: 8, offset: 91282},
+																																pos: position{line: 2894, col: 8, offset: 91326},
 																																expr: &anyMatcher{
-																																	line: 2894, col: 9, offset: 91283,
+																																	line: 2894, col: 9, offset: 91327,
 																																},
 																															},
 																														},
@@ -35490,40 +35490,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2651, col: 24, offset: 84418},
+																											pos: position{line: 2651, col: 24, offset: 84462},
 																											run: (*parser).callonListContinuationElement1407,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2651, col: 24, offset: 84418},
+																												pos:   position{line: 2651, col: 24, offset: 84462},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2651, col: 30, offset: 84424},
+																													pos: position{line: 2651, col: 30, offset: 84468},
 																													expr: &actionExpr{
-																														pos: position{line: 2656, col: 5, offset: 84500},
+																														pos: position{line: 2656, col: 5, offset: 84544},
 																														run: (*parser).callonListContinuationElement1410,
 																														expr: &seqExpr{
-																															pos: position{line: 2656, col: 5, offset: 84500},
+																															pos: position{line: 2656, col: 5, offset: 84544},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2656, col: 5, offset: 84500},
+																																	pos: position{line: 2656, col: 5, offset: 84544},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2621, col: 22, offset: 83697},
+																																		pos: position{line: 2621, col: 22, offset: 83741},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2617, col: 19, offset: 83617},
+																																				pos: position{line: 2617, col: 19, offset: 83661},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2617, col: 19, offset: 83617},
+																																						pos:        position{line: 2617, col: 19, offset: 83661},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2617, col: 26, offset: 83624},
+																																						pos: position{line: 2617, col: 26, offset: 83668},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2875, col: 10, offset: 90934},
+																																							pos: position{line: 2875, col: 10, offset: 90978},
 																																							run: (*parser).callonListContinuationElement1417,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2875, col: 10, offset: 90934},
+																																								pos:        position{line: 2875, col: 10, offset: 90978},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35532,28 +35532,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2897, col: 8, offset: 91332},
+																																						pos: position{line: 2897, col: 8, offset: 91376},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2884, col: 12, offset: 91105},
+																																								pos: position{line: 2884, col: 12, offset: 91149},
 																																								run: (*parser).callonListContinuationElement1420,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2884, col: 13, offset: 91106},
+																																									pos: position{line: 2884, col: 13, offset: 91150},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 13, offset: 91106},
+																																											pos:        position{line: 2884, col: 13, offset: 91150},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 20, offset: 91113},
+																																											pos:        position{line: 2884, col: 20, offset: 91157},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 29, offset: 91122},
+																																											pos:        position{line: 2884, col: 29, offset: 91166},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35562,9 +35562,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2894, col: 8, offset: 91282},
+																																								pos: position{line: 2894, col: 8, offset: 91326},
 																																								expr: &anyMatcher{
-																																									line: 2894, col: 9, offset: 91283,
+																																									line: 2894, col: 9, offset: 91327,
 																																								},
 																																							},
 																																						},
@@ -35572,35 +35572,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2894, col: 8, offset: 91282},
+																																				pos: position{line: 2894, col: 8, offset: 91326},
 																																				expr: &anyMatcher{
-																																					line: 2894, col: 9, offset: 91283,
+																																					line: 2894, col: 9, offset: 91327,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84523},
+																																	pos: position{line: 2657, col: 5, offset: 84567},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21489},
+																																		pos: position{line: 677, col: 14, offset: 21533},
 																																		run: (*parser).callonListContinuationElement1430,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 677, col: 14, offset: 21533},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2892, col: 11, offset: 91268},
+																																					pos: position{line: 2892, col: 11, offset: 91312},
 																																					expr: &anyMatcher{
-																																						line: 2892, col: 13, offset: 91270,
+																																						line: 2892, col: 13, offset: 91314,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21496},
+																																					pos: position{line: 677, col: 21, offset: 21540},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2875, col: 10, offset: 90934},
+																																						pos: position{line: 2875, col: 10, offset: 90978},
 																																						run: (*parser).callonListContinuationElement1435,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2875, col: 10, offset: 90934},
+																																							pos:        position{line: 2875, col: 10, offset: 90978},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35609,28 +35609,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2897, col: 8, offset: 91332},
+																																					pos: position{line: 2897, col: 8, offset: 91376},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2884, col: 12, offset: 91105},
+																																							pos: position{line: 2884, col: 12, offset: 91149},
 																																							run: (*parser).callonListContinuationElement1438,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2884, col: 13, offset: 91106},
+																																								pos: position{line: 2884, col: 13, offset: 91150},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2884, col: 13, offset: 91106},
+																																										pos:        position{line: 2884, col: 13, offset: 91150},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2884, col: 20, offset: 91113},
+																																										pos:        position{line: 2884, col: 20, offset: 91157},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2884, col: 29, offset: 91122},
+																																										pos:        position{line: 2884, col: 29, offset: 91166},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35639,9 +35639,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2894, col: 8, offset: 91282},
+																																							pos: position{line: 2894, col: 8, offset: 91326},
 																																							expr: &anyMatcher{
-																																								line: 2894, col: 9, offset: 91283,
+																																								line: 2894, col: 9, offset: 91327,
 																																							},
 																																						},
 																																					},
@@ -35651,17 +35651,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2658, col: 5, offset: 84538},
+																																	pos:   position{line: 2658, col: 5, offset: 84582},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2658, col: 12, offset: 84545},
+																																		pos: position{line: 2658, col: 12, offset: 84589},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2675, col: 20, offset: 85009},
+																																			pos: position{line: 2675, col: 20, offset: 85053},
 																																			run: (*parser).callonListContinuationElement1447,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2675, col: 20, offset: 85009},
+																																				pos: position{line: 2675, col: 20, offset: 85053},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2675, col: 20, offset: 85009},
+																																					pos:        position{line: 2675, col: 20, offset: 85053},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35672,18 +35672,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2658, col: 31, offset: 84564},
+																																	pos:        position{line: 2658, col: 31, offset: 84608},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2658, col: 35, offset: 84568},
+																																	pos: position{line: 2658, col: 35, offset: 84612},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2875, col: 10, offset: 90934},
+																																		pos: position{line: 2875, col: 10, offset: 90978},
 																																		run: (*parser).callonListContinuationElement1452,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2875, col: 10, offset: 90934},
+																																			pos:        position{line: 2875, col: 10, offset: 90978},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35692,27 +35692,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2658, col: 42, offset: 84575},
+																																	pos: position{line: 2658, col: 42, offset: 84619},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2884, col: 12, offset: 91105},
+																																		pos: position{line: 2884, col: 12, offset: 91149},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2884, col: 13, offset: 91106},
+																																			pos: position{line: 2884, col: 13, offset: 91150},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2884, col: 13, offset: 91106},
+																																					pos:        position{line: 2884, col: 13, offset: 91150},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2884, col: 20, offset: 91113},
+																																					pos:        position{line: 2884, col: 20, offset: 91157},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2884, col: 29, offset: 91122},
+																																					pos:        position{line: 2884, col: 29, offset: 91166},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35722,37 +35722,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2658, col: 51, offset: 84584},
+																																	pos:   position{line: 2658, col: 51, offset: 84628},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2664, col: 5, offset: 84743},
+																																		pos: position{line: 2664, col: 5, offset: 84787},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2665, col: 9, offset: 84753},
+																																			pos: position{line: 2665, col: 9, offset: 84797},
 																																			run: (*parser).callonListContinuationElement1462,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2665, col: 9, offset: 84753},
+																																				pos: position{line: 2665, col: 9, offset: 84797},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84753},
+																																						pos: position{line: 2665, col: 9, offset: 84797},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2621, col: 22, offset: 83697},
+																																							pos: position{line: 2621, col: 22, offset: 83741},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2617, col: 19, offset: 83617},
+																																									pos: position{line: 2617, col: 19, offset: 83661},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2617, col: 19, offset: 83617},
+																																											pos:        position{line: 2617, col: 19, offset: 83661},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2617, col: 26, offset: 83624},
+																																											pos: position{line: 2617, col: 26, offset: 83668},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2875, col: 10, offset: 90934},
+																																												pos: position{line: 2875, col: 10, offset: 90978},
 																																												run: (*parser).callonListContinuationElement1469,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2875, col: 10, offset: 90934},
+																																													pos:        position{line: 2875, col: 10, offset: 90978},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35761,28 +35761,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2897, col: 8, offset: 91332},
+																																											pos: position{line: 2897, col: 8, offset: 91376},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2884, col: 12, offset: 91105},
+																																													pos: position{line: 2884, col: 12, offset: 91149},
 																																													run: (*parser).callonListContinuationElement1472,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2884, col: 13, offset: 91106},
+																																														pos: position{line: 2884, col: 13, offset: 91150},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35791,9 +35791,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2894, col: 8, offset: 91282},
+																																													pos: position{line: 2894, col: 8, offset: 91326},
 																																													expr: &anyMatcher{
-																																														line: 2894, col: 9, offset: 91283,
+																																														line: 2894, col: 9, offset: 91327,
 																																													},
 																																												},
 																																											},
@@ -35801,35 +35801,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2894, col: 8, offset: 91282},
+																																									pos: position{line: 2894, col: 8, offset: 91326},
 																																									expr: &anyMatcher{
-																																										line: 2894, col: 9, offset: 91283,
+																																										line: 2894, col: 9, offset: 91327,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84780},
+																																						pos: position{line: 2666, col: 9, offset: 84824},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21489},
+																																							pos: position{line: 677, col: 14, offset: 21533},
 																																							run: (*parser).callonListContinuationElement1482,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 677, col: 14, offset: 21533},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2892, col: 11, offset: 91268},
+																																										pos: position{line: 2892, col: 11, offset: 91312},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 13, offset: 91270,
+																																											line: 2892, col: 13, offset: 91314,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21496},
+																																										pos: position{line: 677, col: 21, offset: 21540},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2875, col: 10, offset: 90934},
+																																											pos: position{line: 2875, col: 10, offset: 90978},
 																																											run: (*parser).callonListContinuationElement1487,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2875, col: 10, offset: 90934},
+																																												pos:        position{line: 2875, col: 10, offset: 90978},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35838,28 +35838,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2897, col: 8, offset: 91332},
+																																										pos: position{line: 2897, col: 8, offset: 91376},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2884, col: 12, offset: 91105},
+																																												pos: position{line: 2884, col: 12, offset: 91149},
 																																												run: (*parser).callonListContinuationElement1490,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2884, col: 13, offset: 91106},
+																																													pos: position{line: 2884, col: 13, offset: 91150},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2884, col: 13, offset: 91106},
+																																															pos:        position{line: 2884, col: 13, offset: 91150},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2884, col: 20, offset: 91113},
+																																															pos:        position{line: 2884, col: 20, offset: 91157},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2884, col: 29, offset: 91122},
+																																															pos:        position{line: 2884, col: 29, offset: 91166},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35868,9 +35868,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2894, col: 8, offset: 91282},
+																																												pos: position{line: 2894, col: 8, offset: 91326},
 																																												expr: &anyMatcher{
-																																													line: 2894, col: 9, offset: 91283,
+																																													line: 2894, col: 9, offset: 91327,
 																																												},
 																																											},
 																																										},
@@ -35880,22 +35880,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84799},
+																																						pos: position{line: 2667, col: 9, offset: 84843},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2667, col: 11, offset: 84801},
+																																							pos: position{line: 2667, col: 11, offset: 84845},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2667, col: 11, offset: 84801},
+																																									pos:   position{line: 2667, col: 11, offset: 84845},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2667, col: 18, offset: 84808},
+																																										pos: position{line: 2667, col: 18, offset: 84852},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2675, col: 20, offset: 85009},
+																																											pos: position{line: 2675, col: 20, offset: 85053},
 																																											run: (*parser).callonListContinuationElement1501,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2675, col: 20, offset: 85009},
+																																												pos: position{line: 2675, col: 20, offset: 85053},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2675, col: 20, offset: 85009},
+																																													pos:        position{line: 2675, col: 20, offset: 85053},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35906,7 +35906,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2667, col: 37, offset: 84827},
+																																									pos:        position{line: 2667, col: 37, offset: 84871},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35915,15 +35915,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2668, col: 9, offset: 84840},
+																																						pos:   position{line: 2668, col: 9, offset: 84884},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2668, col: 18, offset: 84849},
+																																							pos: position{line: 2668, col: 18, offset: 84893},
 																																							run: (*parser).callonListContinuationElement1506,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2668, col: 18, offset: 84849},
+																																								pos: position{line: 2668, col: 18, offset: 84893},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2668, col: 18, offset: 84849},
+																																									pos:        position{line: 2668, col: 18, offset: 84893},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35933,30 +35933,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2670, col: 12, offset: 84911},
+																																						pos: position{line: 2670, col: 12, offset: 84955},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2897, col: 8, offset: 91332},
+																																							pos: position{line: 2897, col: 8, offset: 91376},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2884, col: 12, offset: 91105},
+																																									pos: position{line: 2884, col: 12, offset: 91149},
 																																									run: (*parser).callonListContinuationElement1511,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2884, col: 13, offset: 91106},
+																																										pos: position{line: 2884, col: 13, offset: 91150},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 13, offset: 91106},
+																																												pos:        position{line: 2884, col: 13, offset: 91150},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 20, offset: 91113},
+																																												pos:        position{line: 2884, col: 20, offset: 91157},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 29, offset: 91122},
+																																												pos:        position{line: 2884, col: 29, offset: 91166},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35965,9 +35965,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2894, col: 8, offset: 91282},
+																																									pos: position{line: 2894, col: 8, offset: 91326},
 																																									expr: &anyMatcher{
-																																										line: 2894, col: 9, offset: 91283,
+																																										line: 2894, col: 9, offset: 91327,
 																																									},
 																																								},
 																																							},
@@ -35989,24 +35989,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 677, col: 14, offset: 21533},
 																							run: (*parser).callonListContinuationElement1518,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 677, col: 14, offset: 21533},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2892, col: 11, offset: 91268},
+																										pos: position{line: 2892, col: 11, offset: 91312},
 																										expr: &anyMatcher{
-																											line: 2892, col: 13, offset: 91270,
+																											line: 2892, col: 13, offset: 91314,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21496},
+																										pos: position{line: 677, col: 21, offset: 21540},
 																										expr: &actionExpr{
-																											pos: position{line: 2875, col: 10, offset: 90934},
+																											pos: position{line: 2875, col: 10, offset: 90978},
 																											run: (*parser).callonListContinuationElement1523,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2875, col: 10, offset: 90934},
+																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36015,28 +36015,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2897, col: 8, offset: 91332},
+																										pos: position{line: 2897, col: 8, offset: 91376},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2884, col: 12, offset: 91105},
+																												pos: position{line: 2884, col: 12, offset: 91149},
 																												run: (*parser).callonListContinuationElement1526,
 																												expr: &choiceExpr{
-																													pos: position{line: 2884, col: 13, offset: 91106},
+																													pos: position{line: 2884, col: 13, offset: 91150},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2884, col: 13, offset: 91106},
+																															pos:        position{line: 2884, col: 13, offset: 91150},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2884, col: 20, offset: 91113},
+																															pos:        position{line: 2884, col: 20, offset: 91157},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2884, col: 29, offset: 91122},
+																															pos:        position{line: 2884, col: 29, offset: 91166},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36045,9 +36045,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2894, col: 8, offset: 91282},
+																												pos: position{line: 2894, col: 8, offset: 91326},
 																												expr: &anyMatcher{
-																													line: 2894, col: 9, offset: 91283,
+																													line: 2894, col: 9, offset: 91327,
 																												},
 																											},
 																										},
@@ -36066,24 +36066,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2621, col: 22, offset: 83697},
+													pos: position{line: 2621, col: 22, offset: 83741},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2617, col: 19, offset: 83617},
+															pos: position{line: 2617, col: 19, offset: 83661},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2617, col: 19, offset: 83617},
+																	pos:        position{line: 2617, col: 19, offset: 83661},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2617, col: 26, offset: 83624},
+																	pos: position{line: 2617, col: 26, offset: 83668},
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonListContinuationElement1537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36092,28 +36092,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement1540,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36122,9 +36122,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -36132,9 +36132,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -36143,36 +36143,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2482, col: 22, offset: 79848},
+										pos: position{line: 2482, col: 22, offset: 79892},
 										run: (*parser).callonListContinuationElement1549,
 										expr: &seqExpr{
-											pos: position{line: 2482, col: 22, offset: 79848},
+											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2487, col: 31, offset: 80069},
+													pos:        position{line: 2487, col: 31, offset: 80113},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2487, col: 36, offset: 80074},
+													pos: position{line: 2487, col: 36, offset: 80118},
 													expr: &litMatcher{
-														pos:        position{line: 2487, col: 37, offset: 80075},
+														pos:        position{line: 2487, col: 37, offset: 80119},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2482, col: 49, offset: 79875},
+													pos:   position{line: 2482, col: 49, offset: 79919},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2821, col: 13, offset: 89460},
+														pos: position{line: 2821, col: 13, offset: 89504},
 														run: (*parser).callonListContinuationElement1555,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2821, col: 13, offset: 89460},
+															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
-																pos:        position{line: 2821, col: 13, offset: 89460},
+																pos:        position{line: 2821, col: 13, offset: 89504},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36182,28 +36182,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2897, col: 8, offset: 91332},
+													pos: position{line: 2897, col: 8, offset: 91376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonListContinuationElement1559,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36212,9 +36212,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2894, col: 8, offset: 91282},
+															pos: position{line: 2894, col: 8, offset: 91326},
 															expr: &anyMatcher{
-																line: 2894, col: 9, offset: 91283,
+																line: 2894, col: 9, offset: 91327,
 															},
 														},
 													},
@@ -36223,94 +36223,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50416},
+										pos: position{line: 1561, col: 5, offset: 50460},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50416},
+											pos: position{line: 1561, col: 5, offset: 50460},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50416},
+													pos:   position{line: 1561, col: 5, offset: 50460},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50422},
+														pos: position{line: 1561, col: 11, offset: 50466},
 														expr: &actionExpr{
-															pos: position{line: 1726, col: 5, offset: 55771},
+															pos: position{line: 1726, col: 5, offset: 55815},
 															run: (*parser).callonListContinuationElement1570,
 															expr: &seqExpr{
-																pos: position{line: 1726, col: 5, offset: 55771},
+																pos: position{line: 1726, col: 5, offset: 55815},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1726, col: 5, offset: 55771},
+																		pos: position{line: 1726, col: 5, offset: 55815},
 																		run: (*parser).callonListContinuationElement1572,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1729, col: 5, offset: 55834},
+																		pos:   position{line: 1729, col: 5, offset: 55878},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1729, col: 12, offset: 55841},
+																			pos: position{line: 1729, col: 12, offset: 55885},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1729, col: 12, offset: 55841},
+																					pos: position{line: 1729, col: 12, offset: 55885},
 																					run: (*parser).callonListContinuationElement1575,
 																					expr: &litMatcher{
-																						pos:        position{line: 1729, col: 12, offset: 55841},
+																						pos:        position{line: 1729, col: 12, offset: 55885},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1731, col: 13, offset: 55897},
+																					pos: position{line: 1731, col: 13, offset: 55941},
 																					run: (*parser).callonListContinuationElement1577,
 																					expr: &litMatcher{
-																						pos:        position{line: 1731, col: 13, offset: 55897},
+																						pos:        position{line: 1731, col: 13, offset: 55941},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1733, col: 13, offset: 55955},
+																					pos: position{line: 1733, col: 13, offset: 55999},
 																					run: (*parser).callonListContinuationElement1579,
 																					expr: &litMatcher{
-																						pos:        position{line: 1733, col: 13, offset: 55955},
+																						pos:        position{line: 1733, col: 13, offset: 55999},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1735, col: 13, offset: 56023},
+																					pos: position{line: 1735, col: 13, offset: 56067},
 																					run: (*parser).callonListContinuationElement1581,
 																					expr: &litMatcher{
-																						pos:        position{line: 1735, col: 13, offset: 56023},
+																						pos:        position{line: 1735, col: 13, offset: 56067},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1737, col: 13, offset: 56087},
+																					pos: position{line: 1737, col: 13, offset: 56131},
 																					run: (*parser).callonListContinuationElement1583,
 																					expr: &litMatcher{
-																						pos:        position{line: 1737, col: 13, offset: 56087},
+																						pos:        position{line: 1737, col: 13, offset: 56131},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1739, col: 13, offset: 56151},
+																					pos: position{line: 1739, col: 13, offset: 56195},
 																					run: (*parser).callonListContinuationElement1585,
 																					expr: &andExpr{
-																						pos: position{line: 1739, col: 13, offset: 56151},
+																						pos: position{line: 1739, col: 13, offset: 56195},
 																						expr: &actionExpr{
-																							pos: position{line: 2879, col: 11, offset: 90995},
+																							pos: position{line: 2879, col: 11, offset: 91039},
 																							run: (*parser).callonListContinuationElement1587,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2879, col: 11, offset: 90995},
+																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2879, col: 11, offset: 90995},
+																									pos:        position{line: 2879, col: 11, offset: 91039},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36324,17 +36324,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1742, col: 5, offset: 56236},
+																		pos: position{line: 1742, col: 5, offset: 56280},
 																		expr: &seqExpr{
-																			pos: position{line: 1742, col: 7, offset: 56238},
+																			pos: position{line: 1742, col: 7, offset: 56282},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1742, col: 7, offset: 56238},
+																					pos: position{line: 1742, col: 7, offset: 56282},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonListContinuationElement1593,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36343,28 +36343,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonListContinuationElement1596,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36373,9 +36373,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -36389,35 +36389,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50445},
+													pos:   position{line: 1562, col: 5, offset: 50489},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48795},
+														pos: position{line: 1505, col: 5, offset: 48839},
 														run: (*parser).callonListContinuationElement1604,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48795},
+															pos: position{line: 1505, col: 5, offset: 48839},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48795},
+																	pos: position{line: 1505, col: 5, offset: 48839},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21533},
 																		run: (*parser).callonListContinuationElement1607,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2892, col: 11, offset: 91268},
+																					pos: position{line: 2892, col: 11, offset: 91312},
 																					expr: &anyMatcher{
-																						line: 2892, col: 13, offset: 91270,
+																						line: 2892, col: 13, offset: 91314,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonListContinuationElement1612,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36426,28 +36426,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91332},
+																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonListContinuationElement1615,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36456,9 +36456,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91282},
+																							pos: position{line: 2894, col: 8, offset: 91326},
 																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91283,
+																								line: 2894, col: 9, offset: 91327,
 																							},
 																						},
 																					},
@@ -36468,23 +36468,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48810},
+																	pos: position{line: 1506, col: 5, offset: 48854},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49636},
+																		pos: position{line: 1536, col: 27, offset: 49680},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49636},
+																				pos:        position{line: 1536, col: 27, offset: 49680},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49640},
+																				pos: position{line: 1536, col: 31, offset: 49684},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonListContinuationElement1626,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36493,25 +36493,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonListContinuationElement1628,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36523,20 +36523,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48838},
+																	pos: position{line: 1507, col: 5, offset: 48882},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50855},
+																		pos: position{line: 1577, col: 5, offset: 50899},
 																		run: (*parser).callonListContinuationElement1634,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50855},
+																			pos: position{line: 1577, col: 5, offset: 50899},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1577, col: 5, offset: 50899},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonListContinuationElement1637,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36545,27 +36545,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 50862},
+																					pos:   position{line: 1577, col: 12, offset: 50906},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 50925},
+																						pos: position{line: 1579, col: 9, offset: 50969},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1579, col: 9, offset: 50969},
 																								run: (*parser).callonListContinuationElement1641,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 50925},
+																									pos: position{line: 1579, col: 9, offset: 50969},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 50925},
+																											pos:   position{line: 1579, col: 9, offset: 50969},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 50932},
+																												pos: position{line: 1579, col: 16, offset: 50976},
 																												run: (*parser).callonListContinuationElement1644,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 50932},
+																													pos: position{line: 1579, col: 16, offset: 50976},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 50933},
+																														pos:        position{line: 1579, col: 17, offset: 50977},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36574,22 +36574,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51033},
+																											pos: position{line: 1583, col: 9, offset: 51077},
 																											run: (*parser).callonListContinuationElement1647,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51750},
+																								pos: position{line: 1602, col: 11, offset: 51794},
 																								run: (*parser).callonListContinuationElement1648,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51750},
+																									pos: position{line: 1602, col: 11, offset: 51794},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1602, col: 11, offset: 51794},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51751},
+																												pos:        position{line: 1602, col: 12, offset: 51795},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36597,7 +36597,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51759},
+																											pos:        position{line: 1602, col: 20, offset: 51803},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36606,20 +36606,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 51876},
+																								pos: position{line: 1604, col: 13, offset: 51920},
 																								run: (*parser).callonListContinuationElement1653,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 51876},
+																									pos: position{line: 1604, col: 13, offset: 51920},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 51877},
+																											pos:        position{line: 1604, col: 14, offset: 51921},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 51884},
+																											pos:        position{line: 1604, col: 21, offset: 51928},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36628,20 +36628,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52004},
+																								pos: position{line: 1606, col: 13, offset: 52048},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52004},
+																									pos: position{line: 1606, col: 13, offset: 52048},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52005},
+																											pos:        position{line: 1606, col: 14, offset: 52049},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52012},
+																											pos:        position{line: 1606, col: 21, offset: 52056},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36650,15 +36650,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52132},
+																								pos: position{line: 1608, col: 13, offset: 52176},
 																								run: (*parser).callonListContinuationElement1661,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52132},
+																									pos: position{line: 1608, col: 13, offset: 52176},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1608, col: 13, offset: 52176},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52133},
+																												pos:        position{line: 1608, col: 14, offset: 52177},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36666,7 +36666,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52145},
+																											pos:        position{line: 1608, col: 26, offset: 52189},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36675,15 +36675,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52265},
+																								pos: position{line: 1610, col: 13, offset: 52309},
 																								run: (*parser).callonListContinuationElement1666,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52265},
+																									pos: position{line: 1610, col: 13, offset: 52309},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1610, col: 13, offset: 52309},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52266},
+																												pos:        position{line: 1610, col: 14, offset: 52310},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36691,7 +36691,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52278},
+																											pos:        position{line: 1610, col: 26, offset: 52322},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36703,12 +36703,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2879, col: 11, offset: 90995},
+																					pos: position{line: 2879, col: 11, offset: 91039},
 																					run: (*parser).callonListContinuationElement1671,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2879, col: 11, offset: 90995},
+																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2879, col: 11, offset: 90995},
+																							pos:        position{line: 2879, col: 11, offset: 91039},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36721,20 +36721,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48868},
+																	pos: position{line: 1508, col: 5, offset: 48912},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52817},
+																		pos: position{line: 1627, col: 5, offset: 52861},
 																		run: (*parser).callonListContinuationElement1675,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52817},
+																			pos: position{line: 1627, col: 5, offset: 52861},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1627, col: 5, offset: 52861},
 																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90934},
+																						pos: position{line: 2875, col: 10, offset: 90978},
 																						run: (*parser).callonListContinuationElement1678,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90934},
+																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36743,24 +36743,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52829},
+																					pos:   position{line: 1628, col: 5, offset: 52873},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52845},
+																						pos: position{line: 1629, col: 9, offset: 52889},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52846},
+																							pos: position{line: 1629, col: 10, offset: 52890},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52847},
+																									pos:        position{line: 1629, col: 11, offset: 52891},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52854},
+																									pos: position{line: 1629, col: 18, offset: 52898},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52855},
+																										pos:        position{line: 1629, col: 19, offset: 52899},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36771,16 +36771,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 52945},
+																					pos: position{line: 1632, col: 7, offset: 52989},
 																					run: (*parser).callonListContinuationElement1686,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2879, col: 11, offset: 90995},
+																					pos: position{line: 2879, col: 11, offset: 91039},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2879, col: 11, offset: 90995},
+																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2879, col: 11, offset: 90995},
+																							pos:        position{line: 2879, col: 11, offset: 91039},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36793,29 +36793,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48900},
+																	pos: position{line: 1509, col: 5, offset: 48944},
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 5, offset: 55386},
+																		pos: position{line: 1717, col: 5, offset: 55430},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1717, col: 5, offset: 55386},
+																			pos: position{line: 1717, col: 5, offset: 55430},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1717, col: 5, offset: 55386},
+																					pos:        position{line: 1717, col: 5, offset: 55430},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1717, col: 9, offset: 55390},
+																					pos:   position{line: 1717, col: 9, offset: 55434},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1717, col: 14, offset: 55395},
+																						pos: position{line: 1717, col: 14, offset: 55439},
 																						run: (*parser).callonListContinuationElement1695,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1717, col: 14, offset: 55395},
+																							pos: position{line: 1717, col: 14, offset: 55439},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1717, col: 14, offset: 55395},
+																								pos:        position{line: 1717, col: 14, offset: 55439},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36825,18 +36825,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1717, col: 62, offset: 55443},
+																					pos:        position{line: 1717, col: 62, offset: 55487},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2879, col: 11, offset: 90995},
+																					pos: position{line: 2879, col: 11, offset: 91039},
 																					run: (*parser).callonListContinuationElement1699,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2879, col: 11, offset: 90995},
+																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2879, col: 11, offset: 90995},
+																							pos:        position{line: 2879, col: 11, offset: 91039},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36849,31 +36849,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48930},
+																	pos: position{line: 1510, col: 5, offset: 48974},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48932},
+																		pos: position{line: 1510, col: 7, offset: 48976},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1662, col: 5, offset: 53880},
 																				run: (*parser).callonListContinuationElement1704,
 																				expr: &seqExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1662, col: 5, offset: 53880},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1662, col: 5, offset: 53836},
+																							pos: position{line: 1662, col: 5, offset: 53880},
 																							expr: &seqExpr{
-																								pos: position{line: 2487, col: 31, offset: 80069},
+																								pos: position{line: 2487, col: 31, offset: 80113},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2487, col: 31, offset: 80069},
+																										pos:        position{line: 2487, col: 31, offset: 80113},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2487, col: 36, offset: 80074},
+																										pos: position{line: 2487, col: 36, offset: 80118},
 																										expr: &litMatcher{
-																											pos:        position{line: 2487, col: 37, offset: 80075},
+																											pos:        position{line: 2487, col: 37, offset: 80119},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -36883,28 +36883,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 5, offset: 53868},
+																							pos: position{line: 1663, col: 5, offset: 53912},
 																							expr: &seqExpr{
-																								pos: position{line: 1663, col: 6, offset: 53869},
+																								pos: position{line: 1663, col: 6, offset: 53913},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1663, col: 6, offset: 53869},
+																										pos: position{line: 1663, col: 6, offset: 53913},
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 5, offset: 54019},
+																											pos: position{line: 1668, col: 5, offset: 54063},
 																											run: (*parser).callonListContinuationElement1714,
 																											expr: &seqExpr{
-																												pos: position{line: 1668, col: 5, offset: 54019},
+																												pos: position{line: 1668, col: 5, offset: 54063},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1668, col: 5, offset: 54019},
+																														pos:   position{line: 1668, col: 5, offset: 54063},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1668, col: 16, offset: 54030},
+																															pos: position{line: 1668, col: 16, offset: 54074},
 																															run: (*parser).callonListContinuationElement1717,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1668, col: 16, offset: 54030},
+																																pos: position{line: 1668, col: 16, offset: 54074},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1668, col: 17, offset: 54031},
+																																	pos:        position{line: 1668, col: 17, offset: 54075},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -36913,7 +36913,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1671, col: 5, offset: 54088},
+																														pos: position{line: 1671, col: 5, offset: 54132},
 																														run: (*parser).callonListContinuationElement1720,
 																													},
 																												},
@@ -36921,30 +36921,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1663, col: 35, offset: 53898},
+																										pos: position{line: 1663, col: 35, offset: 53942},
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1723,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36953,16 +36953,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1663, col: 40, offset: 53903,
+																										line: 1663, col: 40, offset: 53947,
 																									},
 																								},
 																							},
@@ -36971,21 +36971,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54019},
+																				pos: position{line: 1668, col: 5, offset: 54063},
 																				run: (*parser).callonListContinuationElement1731,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54019},
+																					pos: position{line: 1668, col: 5, offset: 54063},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1668, col: 5, offset: 54019},
+																							pos:   position{line: 1668, col: 5, offset: 54063},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 16, offset: 54030},
+																								pos: position{line: 1668, col: 16, offset: 54074},
 																								run: (*parser).callonListContinuationElement1734,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1668, col: 16, offset: 54030},
+																									pos: position{line: 1668, col: 16, offset: 54074},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 17, offset: 54031},
+																										pos:        position{line: 1668, col: 17, offset: 54075},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36994,7 +36994,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 5, offset: 54088},
+																							pos: position{line: 1671, col: 5, offset: 54132},
 																							run: (*parser).callonListContinuationElement1737,
 																						},
 																					},
@@ -37004,17 +37004,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48988},
+																	pos: position{line: 1511, col: 5, offset: 49032},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
+																		pos: position{line: 724, col: 5, offset: 23086},
 																		run: (*parser).callonListContinuationElement1739,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23042},
+																			pos: position{line: 724, col: 5, offset: 23086},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23042},
+																					pos: position{line: 724, col: 5, offset: 23086},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2765, col: 13, offset: 88029},
+																						pos:        position{line: 2765, col: 13, offset: 88073},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37022,36 +37022,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23072},
+																					pos:   position{line: 725, col: 5, offset: 23116},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23092},
+																						pos: position{line: 726, col: 9, offset: 23136},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 740, col: 5, offset: 23628},
 																								run: (*parser).callonListContinuationElement1745,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23628},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 740, col: 5, offset: 23628},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 740, col: 16, offset: 23639},
 																												run: (*parser).callonListContinuationElement1748,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23639},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 740, col: 16, offset: 23639},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 740, col: 23, offset: 23646},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 740, col: 23, offset: 23646},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37062,12 +37062,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 742, col: 8, offset: 23730},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1754,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37076,28 +37076,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1757,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37106,9 +37106,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37117,30 +37117,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 747, col: 5, offset: 23876},
 																								run: (*parser).callonListContinuationElement1764,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23876},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 747, col: 5, offset: 23876},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 747, col: 16, offset: 23887},
 																												run: (*parser).callonListContinuationElement1767,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23887},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 747, col: 16, offset: 23887},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 747, col: 23, offset: 23894},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 747, col: 23, offset: 23894},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37151,12 +37151,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 749, col: 8, offset: 23978},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1773,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37165,28 +37165,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1776,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37195,9 +37195,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37206,27 +37206,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24320},
+																								pos: position{line: 760, col: 26, offset: 24364},
 																								run: (*parser).callonListContinuationElement1783,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24320},
+																									pos: position{line: 760, col: 26, offset: 24364},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24320},
+																											pos:        position{line: 760, col: 26, offset: 24364},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24326},
+																											pos:   position{line: 760, col: 32, offset: 24370},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24456},
+																												pos: position{line: 764, col: 13, offset: 24500},
 																												run: (*parser).callonListContinuationElement1787,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24457},
+																													pos: position{line: 764, col: 14, offset: 24501},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24457},
+																														pos:        position{line: 764, col: 14, offset: 24501},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -37236,12 +37236,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24346},
+																											pos: position{line: 760, col: 52, offset: 24390},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1791,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37250,28 +37250,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1794,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37280,9 +37280,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37291,30 +37291,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 754, col: 5, offset: 24123},
 																								run: (*parser).callonListContinuationElement1801,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24123},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 754, col: 5, offset: 24123},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 754, col: 16, offset: 24134},
 																												run: (*parser).callonListContinuationElement1804,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24134},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 754, col: 16, offset: 24134},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 754, col: 22, offset: 24140},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 754, col: 22, offset: 24140},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37325,12 +37325,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 756, col: 8, offset: 24224},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1810,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37339,28 +37339,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1813,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37369,9 +37369,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37380,30 +37380,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 769, col: 5, offset: 24660},
 																								run: (*parser).callonListContinuationElement1820,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24660},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 769, col: 5, offset: 24660},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 769, col: 16, offset: 24671},
 																												run: (*parser).callonListContinuationElement1823,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24671},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 769, col: 16, offset: 24671},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 769, col: 23, offset: 24678},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 769, col: 23, offset: 24678},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37414,12 +37414,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 771, col: 8, offset: 24762},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1829,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37428,28 +37428,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1832,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37458,9 +37458,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37469,30 +37469,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 783, col: 5, offset: 25136},
 																								run: (*parser).callonListContinuationElement1839,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25136},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 783, col: 5, offset: 25136},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 783, col: 16, offset: 25147},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25147},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 783, col: 16, offset: 25147},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 783, col: 23, offset: 25154},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 783, col: 23, offset: 25154},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37503,12 +37503,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 785, col: 8, offset: 25238},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1848,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37517,28 +37517,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1851,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37547,9 +37547,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37558,30 +37558,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 790, col: 5, offset: 25388},
 																								run: (*parser).callonListContinuationElement1858,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25388},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 790, col: 5, offset: 25388},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 790, col: 16, offset: 25399},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25399},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 790, col: 16, offset: 25399},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 790, col: 23, offset: 25406},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 790, col: 23, offset: 25406},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37592,12 +37592,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 792, col: 8, offset: 25490},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1867,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37606,28 +37606,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1870,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37636,9 +37636,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37647,30 +37647,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 797, col: 5, offset: 25638},
 																								run: (*parser).callonListContinuationElement1877,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25638},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 797, col: 5, offset: 25638},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 797, col: 16, offset: 25649},
 																												run: (*parser).callonListContinuationElement1880,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25649},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 797, col: 16, offset: 25649},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 797, col: 23, offset: 25656},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 797, col: 23, offset: 25656},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -37681,12 +37681,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 799, col: 8, offset: 25740},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1886,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37695,28 +37695,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1889,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37725,9 +37725,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37736,30 +37736,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 804, col: 5, offset: 25884},
 																								run: (*parser).callonListContinuationElement1896,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25884},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 804, col: 5, offset: 25884},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 804, col: 16, offset: 25895},
 																												run: (*parser).callonListContinuationElement1899,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25895},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 804, col: 16, offset: 25895},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 804, col: 23, offset: 25902},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 804, col: 23, offset: 25902},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -37770,12 +37770,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 806, col: 8, offset: 25986},
 																											expr: &actionExpr{
-																												pos: position{line: 2875, col: 10, offset: 90934},
+																												pos: position{line: 2875, col: 10, offset: 90978},
 																												run: (*parser).callonListContinuationElement1905,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 10, offset: 90934},
+																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37784,28 +37784,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2897, col: 8, offset: 91332},
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2884, col: 12, offset: 91105},
+																													pos: position{line: 2884, col: 12, offset: 91149},
 																													run: (*parser).callonListContinuationElement1908,
 																													expr: &choiceExpr{
-																														pos: position{line: 2884, col: 13, offset: 91106},
+																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 13, offset: 91106},
+																																pos:        position{line: 2884, col: 13, offset: 91150},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 20, offset: 91113},
+																																pos:        position{line: 2884, col: 20, offset: 91157},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2884, col: 29, offset: 91122},
+																																pos:        position{line: 2884, col: 29, offset: 91166},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37814,9 +37814,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2894, col: 8, offset: 91282},
+																													pos: position{line: 2894, col: 8, offset: 91326},
 																													expr: &anyMatcher{
-																														line: 2894, col: 9, offset: 91283,
+																														line: 2894, col: 9, offset: 91327,
 																													},
 																												},
 																											},
@@ -37832,15 +37832,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49008},
+																	pos:   position{line: 1512, col: 5, offset: 49052},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2825, col: 14, offset: 89527},
+																		pos: position{line: 2825, col: 14, offset: 89571},
 																		run: (*parser).callonListContinuationElement1916,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2825, col: 14, offset: 89527},
+																			pos: position{line: 2825, col: 14, offset: 89571},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2825, col: 14, offset: 89527},
+																				pos:        position{line: 2825, col: 14, offset: 89571},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37850,28 +37850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonListContinuationElement1920,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37880,9 +37880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -37903,33 +37903,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1701, col: 1, offset: 54880},
+			pos:  position{line: 1701, col: 1, offset: 54924},
 			expr: &actionExpr{
-				pos: position{line: 1703, col: 5, offset: 54958},
+				pos: position{line: 1703, col: 5, offset: 55002},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1703, col: 5, offset: 54958},
+					pos: position{line: 1703, col: 5, offset: 55002},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1703, col: 5, offset: 54958},
+							pos: position{line: 1703, col: 5, offset: 55002},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1706, col: 5, offset: 55025},
+							pos:        position{line: 1706, col: 5, offset: 55069},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1706, col: 9, offset: 55029},
+							pos:   position{line: 1706, col: 9, offset: 55073},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1706, col: 14, offset: 55034},
+								pos: position{line: 1706, col: 14, offset: 55078},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1706, col: 14, offset: 55034},
+									pos: position{line: 1706, col: 14, offset: 55078},
 									expr: &charClassMatcher{
-										pos:        position{line: 1706, col: 14, offset: 55034},
+										pos:        position{line: 1706, col: 14, offset: 55078},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37939,18 +37939,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1706, col: 62, offset: 55082},
+							pos:        position{line: 1706, col: 62, offset: 55126},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1706, col: 66, offset: 55086},
+							pos: position{line: 1706, col: 66, offset: 55130},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37959,30 +37959,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1706, col: 73, offset: 55093},
+							pos: position{line: 1706, col: 73, offset: 55137},
 							expr: &choiceExpr{
-								pos: position{line: 1706, col: 75, offset: 55095},
+								pos: position{line: 1706, col: 75, offset: 55139},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2884, col: 12, offset: 91105},
+										pos: position{line: 2884, col: 12, offset: 91149},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2884, col: 13, offset: 91106},
+											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2884, col: 13, offset: 91106},
+													pos:        position{line: 2884, col: 13, offset: 91150},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 20, offset: 91113},
+													pos:        position{line: 2884, col: 20, offset: 91157},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 29, offset: 91122},
+													pos:        position{line: 2884, col: 29, offset: 91166},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37991,13 +37991,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2894, col: 8, offset: 91282},
+										pos: position{line: 2894, col: 8, offset: 91326},
 										expr: &anyMatcher{
-											line: 2894, col: 9, offset: 91283,
+											line: 2894, col: 9, offset: 91327,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1706, col: 81, offset: 55101},
+										pos:  position{line: 1706, col: 81, offset: 55145},
 										name: "Callout",
 									},
 								},
@@ -38009,44 +38009,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1746, col: 1, offset: 56336},
+			pos:  position{line: 1746, col: 1, offset: 56380},
 			expr: &actionExpr{
-				pos: position{line: 1748, col: 5, offset: 56410},
+				pos: position{line: 1748, col: 5, offset: 56454},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1748, col: 5, offset: 56410},
+					pos: position{line: 1748, col: 5, offset: 56454},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1748, col: 5, offset: 56410},
+							pos: position{line: 1748, col: 5, offset: 56454},
 							expr: &seqExpr{
-								pos: position{line: 1748, col: 7, offset: 56412},
+								pos: position{line: 1748, col: 7, offset: 56456},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2765, col: 13, offset: 88029},
+										pos:        position{line: 2765, col: 13, offset: 88073},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1748, col: 16, offset: 56421},
+										pos: position{line: 1748, col: 16, offset: 56465},
 										expr: &seqExpr{
-											pos: position{line: 1748, col: 18, offset: 56423},
+											pos: position{line: 1748, col: 18, offset: 56467},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1748, col: 19, offset: 56424},
+													pos:        position{line: 1748, col: 19, offset: 56468},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2879, col: 11, offset: 90995},
+													pos: position{line: 2879, col: 11, offset: 91039},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2879, col: 11, offset: 90995},
+														pos: position{line: 2879, col: 11, offset: 91039},
 														expr: &charClassMatcher{
-															pos:        position{line: 2879, col: 11, offset: 90995},
+															pos:        position{line: 2879, col: 11, offset: 91039},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38061,88 +38061,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1749, col: 5, offset: 56564},
+							pos:   position{line: 1749, col: 5, offset: 56608},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1749, col: 11, offset: 56570},
+								pos: position{line: 1749, col: 11, offset: 56614},
 								expr: &actionExpr{
-									pos: position{line: 1726, col: 5, offset: 55771},
+									pos: position{line: 1726, col: 5, offset: 55815},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1726, col: 5, offset: 55771},
+										pos: position{line: 1726, col: 5, offset: 55815},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1726, col: 5, offset: 55771},
+												pos: position{line: 1726, col: 5, offset: 55815},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1729, col: 5, offset: 55834},
+												pos:   position{line: 1729, col: 5, offset: 55878},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1729, col: 12, offset: 55841},
+													pos: position{line: 1729, col: 12, offset: 55885},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1729, col: 12, offset: 55841},
+															pos: position{line: 1729, col: 12, offset: 55885},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1729, col: 12, offset: 55841},
+																pos:        position{line: 1729, col: 12, offset: 55885},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1731, col: 13, offset: 55897},
+															pos: position{line: 1731, col: 13, offset: 55941},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1731, col: 13, offset: 55897},
+																pos:        position{line: 1731, col: 13, offset: 55941},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1733, col: 13, offset: 55955},
+															pos: position{line: 1733, col: 13, offset: 55999},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1733, col: 13, offset: 55955},
+																pos:        position{line: 1733, col: 13, offset: 55999},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1735, col: 13, offset: 56023},
+															pos: position{line: 1735, col: 13, offset: 56067},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 13, offset: 56023},
+																pos:        position{line: 1735, col: 13, offset: 56067},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56087},
+															pos: position{line: 1737, col: 13, offset: 56131},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56087},
+																pos:        position{line: 1737, col: 13, offset: 56131},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56151},
+															pos: position{line: 1739, col: 13, offset: 56195},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1739, col: 13, offset: 56151},
+																pos: position{line: 1739, col: 13, offset: 56195},
 																expr: &actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38156,17 +38156,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1742, col: 5, offset: 56236},
+												pos: position{line: 1742, col: 5, offset: 56280},
 												expr: &seqExpr{
-													pos: position{line: 1742, col: 7, offset: 56238},
+													pos: position{line: 1742, col: 7, offset: 56282},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1742, col: 7, offset: 56238},
+															pos: position{line: 1742, col: 7, offset: 56282},
 															expr: &actionExpr{
-																pos: position{line: 2875, col: 10, offset: 90934},
+																pos: position{line: 2875, col: 10, offset: 90978},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2875, col: 10, offset: 90934},
+																	pos:        position{line: 2875, col: 10, offset: 90978},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38175,28 +38175,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2897, col: 8, offset: 91332},
+															pos: position{line: 2897, col: 8, offset: 91376},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2884, col: 12, offset: 91105},
+																	pos: position{line: 2884, col: 12, offset: 91149},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2884, col: 13, offset: 91106},
+																		pos: position{line: 2884, col: 13, offset: 91150},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 13, offset: 91106},
+																				pos:        position{line: 2884, col: 13, offset: 91150},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 20, offset: 91113},
+																				pos:        position{line: 2884, col: 20, offset: 91157},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 29, offset: 91122},
+																				pos:        position{line: 2884, col: 29, offset: 91166},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38205,9 +38205,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -38221,24 +38221,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1750, col: 5, offset: 56592},
+							pos:   position{line: 1750, col: 5, offset: 56636},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1786, col: 5, offset: 57699},
+								pos: position{line: 1786, col: 5, offset: 57743},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1786, col: 5, offset: 57699},
+									pos: position{line: 1786, col: 5, offset: 57743},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1786, col: 5, offset: 57699},
+											pos:   position{line: 1786, col: 5, offset: 57743},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2825, col: 14, offset: 89527},
+												pos: position{line: 2825, col: 14, offset: 89571},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2825, col: 14, offset: 89527},
+													pos: position{line: 2825, col: 14, offset: 89571},
 													expr: &charClassMatcher{
-														pos:        position{line: 2825, col: 14, offset: 89527},
+														pos:        position{line: 2825, col: 14, offset: 89571},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38248,32 +38248,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1787, col: 5, offset: 57723},
+											pos: position{line: 1787, col: 5, offset: 57767},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2897, col: 8, offset: 91332},
+											pos: position{line: 2897, col: 8, offset: 91376},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2884, col: 12, offset: 91105},
+													pos: position{line: 2884, col: 12, offset: 91149},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2884, col: 13, offset: 91106},
+														pos: position{line: 2884, col: 13, offset: 91150},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2884, col: 13, offset: 91106},
+																pos:        position{line: 2884, col: 13, offset: 91150},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 20, offset: 91113},
+																pos:        position{line: 2884, col: 20, offset: 91157},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 29, offset: 91122},
+																pos:        position{line: 2884, col: 29, offset: 91166},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38282,9 +38282,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
@@ -38294,47 +38294,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1751, col: 5, offset: 56626},
+							pos: position{line: 1751, col: 5, offset: 56670},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 5, offset: 56956},
+							pos:   position{line: 1758, col: 5, offset: 57000},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1758, col: 16, offset: 56967},
+								pos: position{line: 1758, col: 16, offset: 57011},
 								expr: &actionExpr{
-									pos: position{line: 1759, col: 9, offset: 56977},
+									pos: position{line: 1759, col: 9, offset: 57021},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1759, col: 9, offset: 56977},
+										pos: position{line: 1759, col: 9, offset: 57021},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2892, col: 11, offset: 91268},
+												pos: position{line: 2892, col: 11, offset: 91312},
 												expr: &anyMatcher{
-													line: 2892, col: 13, offset: 91270,
+													line: 2892, col: 13, offset: 91314,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56993},
+												pos: position{line: 1760, col: 9, offset: 57037},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21533},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2892, col: 11, offset: 91268},
+																pos: position{line: 2892, col: 11, offset: 91312},
 																expr: &anyMatcher{
-																	line: 2892, col: 13, offset: 91270,
+																	line: 2892, col: 13, offset: 91314,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38343,28 +38343,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38373,9 +38373,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -38385,24 +38385,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 57012},
+												pos: position{line: 1761, col: 9, offset: 57056},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1761, col: 10, offset: 57013},
+													pos:  position{line: 1761, col: 10, offset: 57057},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1762, col: 9, offset: 57037},
+												pos: position{line: 1762, col: 9, offset: 57081},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 724, col: 5, offset: 23086},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 724, col: 5, offset: 23086},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 724, col: 5, offset: 23086},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2765, col: 13, offset: 88029},
+																	pos:        position{line: 2765, col: 13, offset: 88073},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38410,36 +38410,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23072},
+																pos:   position{line: 725, col: 5, offset: 23116},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23092},
+																	pos: position{line: 726, col: 9, offset: 23136},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23628},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23628},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 740, col: 5, offset: 23628},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23639},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23639},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 740, col: 16, offset: 23639},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 740, col: 23, offset: 23646},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 740, col: 23, offset: 23646},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38450,12 +38450,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 742, col: 8, offset: 23730},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38464,28 +38464,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38494,9 +38494,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -38505,30 +38505,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23832},
+																			pos: position{line: 747, col: 5, offset: 23876},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23876},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23832},
+																						pos:   position{line: 747, col: 5, offset: 23876},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23843},
+																							pos: position{line: 747, col: 16, offset: 23887},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23887},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23843},
+																										pos:        position{line: 747, col: 16, offset: 23887},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23850},
+																										pos: position{line: 747, col: 23, offset: 23894},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23850},
+																											pos:        position{line: 747, col: 23, offset: 23894},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38539,12 +38539,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23934},
+																						pos: position{line: 749, col: 8, offset: 23978},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38553,28 +38553,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38583,9 +38583,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -38594,27 +38594,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24320},
+																			pos: position{line: 760, col: 26, offset: 24364},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 760, col: 26, offset: 24364},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24320},
+																						pos:        position{line: 760, col: 26, offset: 24364},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24326},
+																						pos:   position{line: 760, col: 32, offset: 24370},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24456},
+																							pos: position{line: 764, col: 13, offset: 24500},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24457},
+																								pos: position{line: 764, col: 14, offset: 24501},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24457},
+																									pos:        position{line: 764, col: 14, offset: 24501},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -38624,12 +38624,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24346},
+																						pos: position{line: 760, col: 52, offset: 24390},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38638,28 +38638,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38668,9 +38668,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -38679,30 +38679,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24079},
+																			pos: position{line: 754, col: 5, offset: 24123},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24123},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24079},
+																						pos:   position{line: 754, col: 5, offset: 24123},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24090},
+																							pos: position{line: 754, col: 16, offset: 24134},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24134},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24090},
+																										pos:        position{line: 754, col: 16, offset: 24134},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24096},
+																										pos: position{line: 754, col: 22, offset: 24140},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24096},
+																											pos:        position{line: 754, col: 22, offset: 24140},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -38713,12 +38713,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24180},
+																						pos: position{line: 756, col: 8, offset: 24224},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38727,28 +38727,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38757,9 +38757,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -38768,30 +38768,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24616},
+																			pos: position{line: 769, col: 5, offset: 24660},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24660},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24616},
+																						pos:   position{line: 769, col: 5, offset: 24660},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24627},
+																							pos: position{line: 769, col: 16, offset: 24671},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24671},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24627},
+																										pos:        position{line: 769, col: 16, offset: 24671},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24634},
+																										pos: position{line: 769, col: 23, offset: 24678},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24634},
+																											pos:        position{line: 769, col: 23, offset: 24678},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -38802,12 +38802,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24718},
+																						pos: position{line: 771, col: 8, offset: 24762},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38816,28 +38816,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38846,9 +38846,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -38857,30 +38857,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25092},
+																			pos: position{line: 783, col: 5, offset: 25136},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25136},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25092},
+																						pos:   position{line: 783, col: 5, offset: 25136},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25103},
+																							pos: position{line: 783, col: 16, offset: 25147},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25147},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25103},
+																										pos:        position{line: 783, col: 16, offset: 25147},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25110},
+																										pos: position{line: 783, col: 23, offset: 25154},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25110},
+																											pos:        position{line: 783, col: 23, offset: 25154},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38891,12 +38891,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25194},
+																						pos: position{line: 785, col: 8, offset: 25238},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38905,28 +38905,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38935,9 +38935,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -38946,30 +38946,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25344},
+																			pos: position{line: 790, col: 5, offset: 25388},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25388},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25344},
+																						pos:   position{line: 790, col: 5, offset: 25388},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25355},
+																							pos: position{line: 790, col: 16, offset: 25399},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25399},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25355},
+																										pos:        position{line: 790, col: 16, offset: 25399},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25362},
+																										pos: position{line: 790, col: 23, offset: 25406},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25362},
+																											pos:        position{line: 790, col: 23, offset: 25406},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -38980,12 +38980,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25446},
+																						pos: position{line: 792, col: 8, offset: 25490},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38994,28 +38994,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39024,9 +39024,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -39035,30 +39035,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25594},
+																			pos: position{line: 797, col: 5, offset: 25638},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25638},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25594},
+																						pos:   position{line: 797, col: 5, offset: 25638},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25605},
+																							pos: position{line: 797, col: 16, offset: 25649},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25649},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25605},
+																										pos:        position{line: 797, col: 16, offset: 25649},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25612},
+																										pos: position{line: 797, col: 23, offset: 25656},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25612},
+																											pos:        position{line: 797, col: 23, offset: 25656},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39069,12 +39069,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25696},
+																						pos: position{line: 799, col: 8, offset: 25740},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39083,28 +39083,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39113,9 +39113,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -39124,30 +39124,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25840},
+																			pos: position{line: 804, col: 5, offset: 25884},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25884},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25840},
+																						pos:   position{line: 804, col: 5, offset: 25884},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25851},
+																							pos: position{line: 804, col: 16, offset: 25895},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25895},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25851},
+																										pos:        position{line: 804, col: 16, offset: 25895},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25858},
+																										pos: position{line: 804, col: 23, offset: 25902},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25858},
+																											pos:        position{line: 804, col: 23, offset: 25902},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39158,12 +39158,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25942},
+																						pos: position{line: 806, col: 8, offset: 25986},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39172,28 +39172,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2897, col: 8, offset: 91332},
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2884, col: 12, offset: 91105},
+																								pos: position{line: 2884, col: 12, offset: 91149},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 13, offset: 91106},
+																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91106},
+																											pos:        position{line: 2884, col: 13, offset: 91150},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 20, offset: 91113},
+																											pos:        position{line: 2884, col: 20, offset: 91157},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2884, col: 29, offset: 91122},
+																											pos:        position{line: 2884, col: 29, offset: 91166},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39202,9 +39202,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2894, col: 8, offset: 91282},
+																								pos: position{line: 2894, col: 8, offset: 91326},
 																								expr: &anyMatcher{
-																									line: 2894, col: 9, offset: 91283,
+																									line: 2894, col: 9, offset: 91327,
 																								},
 																							},
 																						},
@@ -39220,23 +39220,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1763, col: 9, offset: 57061},
+												pos: position{line: 1763, col: 9, offset: 57105},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49636},
+													pos: position{line: 1536, col: 27, offset: 49680},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49636},
+															pos:        position{line: 1536, col: 27, offset: 49680},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49640},
+															pos: position{line: 1536, col: 31, offset: 49684},
 															expr: &actionExpr{
-																pos: position{line: 2875, col: 10, offset: 90934},
+																pos: position{line: 2875, col: 10, offset: 90978},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2875, col: 10, offset: 90934},
+																	pos:        position{line: 2875, col: 10, offset: 90978},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39245,25 +39245,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39275,42 +39275,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1764, col: 9, offset: 57093},
+												pos:   position{line: 1764, col: 9, offset: 57137},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1764, col: 15, offset: 57099},
+													pos: position{line: 1764, col: 15, offset: 57143},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2482, col: 22, offset: 79848},
+															pos: position{line: 2482, col: 22, offset: 79892},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2482, col: 22, offset: 79848},
+																pos: position{line: 2482, col: 22, offset: 79892},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2487, col: 31, offset: 80069},
+																		pos:        position{line: 2487, col: 31, offset: 80113},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2487, col: 36, offset: 80074},
+																		pos: position{line: 2487, col: 36, offset: 80118},
 																		expr: &litMatcher{
-																			pos:        position{line: 2487, col: 37, offset: 80075},
+																			pos:        position{line: 2487, col: 37, offset: 80119},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2482, col: 49, offset: 79875},
+																		pos:   position{line: 2482, col: 49, offset: 79919},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 13, offset: 89460},
+																			pos: position{line: 2821, col: 13, offset: 89504},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2821, col: 13, offset: 89460},
+																				pos: position{line: 2821, col: 13, offset: 89504},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 13, offset: 89460},
+																					pos:        position{line: 2821, col: 13, offset: 89504},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39320,28 +39320,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39350,9 +39350,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -39361,21 +39361,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1786, col: 5, offset: 57699},
+															pos: position{line: 1786, col: 5, offset: 57743},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1786, col: 5, offset: 57699},
+																pos: position{line: 1786, col: 5, offset: 57743},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1786, col: 5, offset: 57699},
+																		pos:   position{line: 1786, col: 5, offset: 57743},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2825, col: 14, offset: 89527},
+																			pos: position{line: 2825, col: 14, offset: 89571},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2825, col: 14, offset: 89527},
+																				pos: position{line: 2825, col: 14, offset: 89571},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 14, offset: 89527},
+																					pos:        position{line: 2825, col: 14, offset: 89571},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39385,32 +39385,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1787, col: 5, offset: 57723},
+																		pos: position{line: 1787, col: 5, offset: 57767},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39419,9 +39419,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -39443,96 +39443,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1771, col: 1, offset: 57303},
+			pos:  position{line: 1771, col: 1, offset: 57347},
 			expr: &actionExpr{
-				pos: position{line: 1772, col: 5, offset: 57321},
+				pos: position{line: 1772, col: 5, offset: 57365},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1772, col: 5, offset: 57321},
+					pos: position{line: 1772, col: 5, offset: 57365},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57321},
+							pos:   position{line: 1772, col: 5, offset: 57365},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1772, col: 11, offset: 57327},
+								pos: position{line: 1772, col: 11, offset: 57371},
 								expr: &actionExpr{
-									pos: position{line: 1726, col: 5, offset: 55771},
+									pos: position{line: 1726, col: 5, offset: 55815},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1726, col: 5, offset: 55771},
+										pos: position{line: 1726, col: 5, offset: 55815},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1726, col: 5, offset: 55771},
+												pos: position{line: 1726, col: 5, offset: 55815},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1729, col: 5, offset: 55834},
+												pos:   position{line: 1729, col: 5, offset: 55878},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1729, col: 12, offset: 55841},
+													pos: position{line: 1729, col: 12, offset: 55885},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1729, col: 12, offset: 55841},
+															pos: position{line: 1729, col: 12, offset: 55885},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1729, col: 12, offset: 55841},
+																pos:        position{line: 1729, col: 12, offset: 55885},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1731, col: 13, offset: 55897},
+															pos: position{line: 1731, col: 13, offset: 55941},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1731, col: 13, offset: 55897},
+																pos:        position{line: 1731, col: 13, offset: 55941},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1733, col: 13, offset: 55955},
+															pos: position{line: 1733, col: 13, offset: 55999},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1733, col: 13, offset: 55955},
+																pos:        position{line: 1733, col: 13, offset: 55999},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1735, col: 13, offset: 56023},
+															pos: position{line: 1735, col: 13, offset: 56067},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 13, offset: 56023},
+																pos:        position{line: 1735, col: 13, offset: 56067},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56087},
+															pos: position{line: 1737, col: 13, offset: 56131},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56087},
+																pos:        position{line: 1737, col: 13, offset: 56131},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56151},
+															pos: position{line: 1739, col: 13, offset: 56195},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1739, col: 13, offset: 56151},
+																pos: position{line: 1739, col: 13, offset: 56195},
 																expr: &actionExpr{
-																	pos: position{line: 2879, col: 11, offset: 90995},
+																	pos: position{line: 2879, col: 11, offset: 91039},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2879, col: 11, offset: 90995},
+																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 90995},
+																			pos:        position{line: 2879, col: 11, offset: 91039},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39546,17 +39546,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1742, col: 5, offset: 56236},
+												pos: position{line: 1742, col: 5, offset: 56280},
 												expr: &seqExpr{
-													pos: position{line: 1742, col: 7, offset: 56238},
+													pos: position{line: 1742, col: 7, offset: 56282},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1742, col: 7, offset: 56238},
+															pos: position{line: 1742, col: 7, offset: 56282},
 															expr: &actionExpr{
-																pos: position{line: 2875, col: 10, offset: 90934},
+																pos: position{line: 2875, col: 10, offset: 90978},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2875, col: 10, offset: 90934},
+																	pos:        position{line: 2875, col: 10, offset: 90978},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39565,28 +39565,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2897, col: 8, offset: 91332},
+															pos: position{line: 2897, col: 8, offset: 91376},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2884, col: 12, offset: 91105},
+																	pos: position{line: 2884, col: 12, offset: 91149},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2884, col: 13, offset: 91106},
+																		pos: position{line: 2884, col: 13, offset: 91150},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 13, offset: 91106},
+																				pos:        position{line: 2884, col: 13, offset: 91150},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 20, offset: 91113},
+																				pos:        position{line: 2884, col: 20, offset: 91157},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 29, offset: 91122},
+																				pos:        position{line: 2884, col: 29, offset: 91166},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39595,9 +39595,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -39611,24 +39611,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1773, col: 5, offset: 57350},
+							pos:   position{line: 1773, col: 5, offset: 57394},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1786, col: 5, offset: 57699},
+								pos: position{line: 1786, col: 5, offset: 57743},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1786, col: 5, offset: 57699},
+									pos: position{line: 1786, col: 5, offset: 57743},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1786, col: 5, offset: 57699},
+											pos:   position{line: 1786, col: 5, offset: 57743},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2825, col: 14, offset: 89527},
+												pos: position{line: 2825, col: 14, offset: 89571},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2825, col: 14, offset: 89527},
+													pos: position{line: 2825, col: 14, offset: 89571},
 													expr: &charClassMatcher{
-														pos:        position{line: 2825, col: 14, offset: 89527},
+														pos:        position{line: 2825, col: 14, offset: 89571},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39638,32 +39638,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1787, col: 5, offset: 57723},
+											pos: position{line: 1787, col: 5, offset: 57767},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2897, col: 8, offset: 91332},
+											pos: position{line: 2897, col: 8, offset: 91376},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2884, col: 12, offset: 91105},
+													pos: position{line: 2884, col: 12, offset: 91149},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2884, col: 13, offset: 91106},
+														pos: position{line: 2884, col: 13, offset: 91150},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2884, col: 13, offset: 91106},
+																pos:        position{line: 2884, col: 13, offset: 91150},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 20, offset: 91113},
+																pos:        position{line: 2884, col: 20, offset: 91157},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2884, col: 29, offset: 91122},
+																pos:        position{line: 2884, col: 29, offset: 91166},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39672,9 +39672,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2894, col: 8, offset: 91282},
+													pos: position{line: 2894, col: 8, offset: 91326},
 													expr: &anyMatcher{
-														line: 2894, col: 9, offset: 91283,
+														line: 2894, col: 9, offset: 91327,
 													},
 												},
 											},
@@ -39684,43 +39684,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1774, col: 5, offset: 57384},
+							pos:   position{line: 1774, col: 5, offset: 57428},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1774, col: 16, offset: 57395},
+								pos: position{line: 1774, col: 16, offset: 57439},
 								expr: &actionExpr{
-									pos: position{line: 1775, col: 9, offset: 57405},
+									pos: position{line: 1775, col: 9, offset: 57449},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1775, col: 9, offset: 57405},
+										pos: position{line: 1775, col: 9, offset: 57449},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2892, col: 11, offset: 91268},
+												pos: position{line: 2892, col: 11, offset: 91312},
 												expr: &anyMatcher{
-													line: 2892, col: 13, offset: 91270,
+													line: 2892, col: 13, offset: 91314,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1776, col: 9, offset: 57420},
+												pos: position{line: 1776, col: 9, offset: 57464},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21533},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2892, col: 11, offset: 91268},
+																pos: position{line: 2892, col: 11, offset: 91312},
 																expr: &anyMatcher{
-																	line: 2892, col: 13, offset: 91270,
+																	line: 2892, col: 13, offset: 91314,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39729,28 +39729,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91332},
+																pos: position{line: 2897, col: 8, offset: 91376},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91105},
+																		pos: position{line: 2884, col: 12, offset: 91149},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91106},
+																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91106},
+																					pos:        position{line: 2884, col: 13, offset: 91150},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91113},
+																					pos:        position{line: 2884, col: 20, offset: 91157},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91122},
+																					pos:        position{line: 2884, col: 29, offset: 91166},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39759,9 +39759,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91282},
+																		pos: position{line: 2894, col: 8, offset: 91326},
 																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91283,
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -39771,49 +39771,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1777, col: 9, offset: 57439},
+												pos: position{line: 1777, col: 9, offset: 57483},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1777, col: 10, offset: 57440},
+													pos:  position{line: 1777, col: 10, offset: 57484},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1778, col: 9, offset: 57464},
+												pos:   position{line: 1778, col: 9, offset: 57508},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1778, col: 15, offset: 57470},
+													pos: position{line: 1778, col: 15, offset: 57514},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2482, col: 22, offset: 79848},
+															pos: position{line: 2482, col: 22, offset: 79892},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2482, col: 22, offset: 79848},
+																pos: position{line: 2482, col: 22, offset: 79892},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2487, col: 31, offset: 80069},
+																		pos:        position{line: 2487, col: 31, offset: 80113},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2487, col: 36, offset: 80074},
+																		pos: position{line: 2487, col: 36, offset: 80118},
 																		expr: &litMatcher{
-																			pos:        position{line: 2487, col: 37, offset: 80075},
+																			pos:        position{line: 2487, col: 37, offset: 80119},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2482, col: 49, offset: 79875},
+																		pos:   position{line: 2482, col: 49, offset: 79919},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2821, col: 13, offset: 89460},
+																			pos: position{line: 2821, col: 13, offset: 89504},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2821, col: 13, offset: 89460},
+																				pos: position{line: 2821, col: 13, offset: 89504},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2821, col: 13, offset: 89460},
+																					pos:        position{line: 2821, col: 13, offset: 89504},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39823,28 +39823,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39853,9 +39853,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -39864,21 +39864,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1786, col: 5, offset: 57699},
+															pos: position{line: 1786, col: 5, offset: 57743},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1786, col: 5, offset: 57699},
+																pos: position{line: 1786, col: 5, offset: 57743},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1786, col: 5, offset: 57699},
+																		pos:   position{line: 1786, col: 5, offset: 57743},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2825, col: 14, offset: 89527},
+																			pos: position{line: 2825, col: 14, offset: 89571},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2825, col: 14, offset: 89527},
+																				pos: position{line: 2825, col: 14, offset: 89571},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 14, offset: 89527},
+																					pos:        position{line: 2825, col: 14, offset: 89571},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39888,32 +39888,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1787, col: 5, offset: 57723},
+																		pos: position{line: 1787, col: 5, offset: 57767},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2897, col: 8, offset: 91332},
+																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39922,9 +39922,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2894, col: 8, offset: 91282},
+																				pos: position{line: 2894, col: 8, offset: 91326},
 																				expr: &anyMatcher{
-																					line: 2894, col: 9, offset: 91283,
+																					line: 2894, col: 9, offset: 91327,
 																				},
 																			},
 																		},
@@ -39946,16 +39946,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58209},
+			pos:  position{line: 1797, col: 1, offset: 58253},
 			expr: &choiceExpr{
-				pos: position{line: 1797, col: 15, offset: 58223},
+				pos: position{line: 1797, col: 15, offset: 58267},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1797, col: 15, offset: 58223},
+						pos:  position{line: 1797, col: 15, offset: 58267},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1797, col: 35, offset: 58243},
+						pos:  position{line: 1797, col: 35, offset: 58287},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39963,65 +39963,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1799, col: 1, offset: 58264},
+			pos:  position{line: 1799, col: 1, offset: 58308},
 			expr: &actionExpr{
-				pos: position{line: 1800, col: 5, offset: 58289},
+				pos: position{line: 1800, col: 5, offset: 58333},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1800, col: 5, offset: 58289},
+					pos: position{line: 1800, col: 5, offset: 58333},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1800, col: 5, offset: 58289},
+							pos:   position{line: 1800, col: 5, offset: 58333},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1800, col: 16, offset: 58300},
+								pos: position{line: 1800, col: 16, offset: 58344},
 								expr: &actionExpr{
-									pos: position{line: 1800, col: 17, offset: 58301},
+									pos: position{line: 1800, col: 17, offset: 58345},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1800, col: 17, offset: 58301},
+										pos:  position{line: 1800, col: 17, offset: 58345},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1803, col: 5, offset: 58369},
+							pos: position{line: 1803, col: 5, offset: 58413},
 							expr: &litMatcher{
-								pos:        position{line: 1803, col: 7, offset: 58371},
+								pos:        position{line: 1803, col: 7, offset: 58415},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58380},
+							pos:   position{line: 1804, col: 5, offset: 58424},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1805, col: 9, offset: 58398},
+								pos: position{line: 1805, col: 9, offset: 58442},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 9, offset: 58398},
+										pos:  position{line: 1805, col: 9, offset: 58442},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58425},
+										pos:  position{line: 1806, col: 11, offset: 58469},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58453},
+										pos:  position{line: 1807, col: 11, offset: 58497},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58484},
+										pos:  position{line: 1808, col: 11, offset: 58528},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1809, col: 11, offset: 58512},
+										pos:  position{line: 1809, col: 11, offset: 58556},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1810, col: 11, offset: 58543},
+										pos:  position{line: 1810, col: 11, offset: 58587},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40033,36 +40033,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1815, col: 1, offset: 58663},
+			pos:  position{line: 1815, col: 1, offset: 58707},
 			expr: &actionExpr{
-				pos: position{line: 1816, col: 5, offset: 58705},
+				pos: position{line: 1816, col: 5, offset: 58749},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1816, col: 5, offset: 58705},
+					pos: position{line: 1816, col: 5, offset: 58749},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1816, col: 5, offset: 58705},
+							pos:   position{line: 1816, col: 5, offset: 58749},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1816, col: 16, offset: 58716},
+								pos: position{line: 1816, col: 16, offset: 58760},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1816, col: 17, offset: 58717},
+									pos:  position{line: 1816, col: 17, offset: 58761},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1817, col: 5, offset: 58742},
+							pos:   position{line: 1817, col: 5, offset: 58786},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1817, col: 14, offset: 58751},
+								pos: position{line: 1817, col: 14, offset: 58795},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 14, offset: 58751},
+										pos:  position{line: 1817, col: 14, offset: 58795},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 33, offset: 58770},
+										pos:  position{line: 1817, col: 33, offset: 58814},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40074,32 +40074,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1825, col: 1, offset: 59001},
+			pos:  position{line: 1825, col: 1, offset: 59045},
 			expr: &choiceExpr{
-				pos: position{line: 1826, col: 5, offset: 59026},
+				pos: position{line: 1826, col: 5, offset: 59070},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 5, offset: 59026},
+						pos:  position{line: 1826, col: 5, offset: 59070},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59053},
+						pos:  position{line: 1827, col: 7, offset: 59097},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59081},
+						pos:  position{line: 1828, col: 7, offset: 59125},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59113},
+						pos:  position{line: 1829, col: 7, offset: 59157},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1830, col: 7, offset: 59141},
+						pos:  position{line: 1830, col: 7, offset: 59185},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1831, col: 7, offset: 59162},
+						pos:  position{line: 1831, col: 7, offset: 59206},
 						name: "SuperscriptText",
 					},
 				},
@@ -40107,24 +40107,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1833, col: 1, offset: 59180},
+			pos:  position{line: 1833, col: 1, offset: 59224},
 			expr: &choiceExpr{
-				pos: position{line: 1834, col: 5, offset: 59205},
+				pos: position{line: 1834, col: 5, offset: 59249},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 5, offset: 59205},
+						pos:  position{line: 1834, col: 5, offset: 59249},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59231},
+						pos:  position{line: 1835, col: 7, offset: 59275},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59259},
+						pos:  position{line: 1836, col: 7, offset: 59303},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59290},
+						pos:  position{line: 1837, col: 7, offset: 59334},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40132,26 +40132,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1851, col: 1, offset: 59644},
+			pos:  position{line: 1851, col: 1, offset: 59688},
 			expr: &choiceExpr{
-				pos: position{line: 1852, col: 5, offset: 59670},
+				pos: position{line: 1852, col: 5, offset: 59714},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2774, col: 5, offset: 88176},
+						pos: position{line: 2774, col: 5, offset: 88220},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2774, col: 5, offset: 88176},
+							pos: position{line: 2774, col: 5, offset: 88220},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2774, col: 5, offset: 88176},
+									pos:   position{line: 2774, col: 5, offset: 88220},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2774, col: 11, offset: 88182},
+										pos: position{line: 2774, col: 11, offset: 88226},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2774, col: 11, offset: 88182},
+											pos: position{line: 2774, col: 11, offset: 88226},
 											expr: &charClassMatcher{
-												pos:        position{line: 2774, col: 11, offset: 88182},
+												pos:        position{line: 2774, col: 11, offset: 88226},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40161,36 +40161,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2777, col: 5, offset: 88240},
+									pos: position{line: 2777, col: 5, offset: 88284},
 									expr: &seqExpr{
-										pos: position{line: 2778, col: 9, offset: 88251},
+										pos: position{line: 2778, col: 9, offset: 88295},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2778, col: 9, offset: 88251},
+												pos:        position{line: 2778, col: 9, offset: 88295},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2779, col: 9, offset: 88300},
+												pos: position{line: 2779, col: 9, offset: 88344},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2783, col: 5, offset: 88380},
+									pos: position{line: 2783, col: 5, offset: 88424},
 									expr: &seqExpr{
-										pos: position{line: 2784, col: 9, offset: 88391},
+										pos: position{line: 2784, col: 9, offset: 88435},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2784, col: 9, offset: 88391},
+												pos:        position{line: 2784, col: 9, offset: 88435},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2784, col: 13, offset: 88395},
+												pos:        position{line: 2784, col: 13, offset: 88439},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40203,12 +40203,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2879, col: 11, offset: 90995},
+						pos: position{line: 2879, col: 11, offset: 91039},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2879, col: 11, offset: 90995},
+							pos: position{line: 2879, col: 11, offset: 91039},
 							expr: &charClassMatcher{
-								pos:        position{line: 2879, col: 11, offset: 90995},
+								pos:        position{line: 2879, col: 11, offset: 91039},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40217,29 +40217,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 59733},
+						pos:  position{line: 1854, col: 7, offset: 59777},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2500, col: 5, offset: 80565},
+						pos: position{line: 2500, col: 5, offset: 80609},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2500, col: 5, offset: 80565},
+							pos: position{line: 2500, col: 5, offset: 80609},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2500, col: 5, offset: 80565},
+									pos: position{line: 2500, col: 5, offset: 80609},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2503, col: 5, offset: 80636},
+									pos:        position{line: 2503, col: 5, offset: 80680},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2503, col: 10, offset: 80641},
+									pos: position{line: 2503, col: 10, offset: 80685},
 									expr: &charClassMatcher{
-										pos:        position{line: 2503, col: 11, offset: 80642},
+										pos:        position{line: 2503, col: 11, offset: 80686},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40250,29 +40250,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2509, col: 5, offset: 80834},
+						pos: position{line: 2509, col: 5, offset: 80878},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2509, col: 5, offset: 80834},
+							pos: position{line: 2509, col: 5, offset: 80878},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2509, col: 5, offset: 80834},
+									pos: position{line: 2509, col: 5, offset: 80878},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80905},
+									pos: position{line: 2512, col: 5, offset: 80949},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2516, col: 5, offset: 81030},
+									pos:        position{line: 2516, col: 5, offset: 81074},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2516, col: 9, offset: 81034},
+									pos: position{line: 2516, col: 9, offset: 81078},
 									expr: &charClassMatcher{
-										pos:        position{line: 2516, col: 10, offset: 81035},
+										pos:        position{line: 2516, col: 10, offset: 81079},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40283,27 +40283,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2792, col: 5, offset: 88588},
+						pos: position{line: 2792, col: 5, offset: 88632},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2793, col: 9, offset: 88598},
+							pos: position{line: 2793, col: 9, offset: 88642},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2793, col: 10, offset: 88599},
+									pos:        position{line: 2793, col: 10, offset: 88643},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2795, col: 13, offset: 88696},
+									pos: position{line: 2795, col: 13, offset: 88740},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2795, col: 13, offset: 88696},
+											pos: position{line: 2795, col: 13, offset: 88740},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2798, col: 13, offset: 88796},
+											pos:        position{line: 2798, col: 13, offset: 88840},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40311,20 +40311,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2798, col: 19, offset: 88802},
+									pos:        position{line: 2798, col: 19, offset: 88846},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2801, col: 13, offset: 88840},
+									pos: position{line: 2801, col: 13, offset: 88884},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2801, col: 13, offset: 88840},
+											pos: position{line: 2801, col: 13, offset: 88884},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2804, col: 14, offset: 88933},
+											pos:        position{line: 2804, col: 14, offset: 88977},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40333,18 +40333,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2806, col: 12, offset: 88977},
+									pos: position{line: 2806, col: 12, offset: 89021},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2806, col: 12, offset: 88977},
+											pos:        position{line: 2806, col: 12, offset: 89021},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2806, col: 16, offset: 88981},
+											pos: position{line: 2806, col: 16, offset: 89025},
 											expr: &litMatcher{
-												pos:        position{line: 2806, col: 17, offset: 88982},
+												pos:        position{line: 2806, col: 17, offset: 89026},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40356,44 +40356,44 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20109},
+						pos: position{line: 636, col: 5, offset: 20153},
 						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20109},
+							pos: position{line: 636, col: 5, offset: 20153},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20153},
 									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20181},
+									pos:   position{line: 639, col: 5, offset: 20225},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20190},
+										pos: position{line: 639, col: 14, offset: 20234},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20319},
+												pos: position{line: 645, col: 5, offset: 20363},
 												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 645, col: 5, offset: 20363},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20319},
+															pos:        position{line: 645, col: 5, offset: 20363},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20327},
+															pos:   position{line: 645, col: 13, offset: 20371},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																run: (*parser).callonQuotedTextElement56,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9780},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9780},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40401,9 +40401,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9791},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40416,7 +40416,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20346},
+															pos:        position{line: 645, col: 32, offset: 20390},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40425,28 +40425,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20587},
+												pos: position{line: 652, col: 5, offset: 20631},
 												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 652, col: 5, offset: 20631},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20587},
+															pos:        position{line: 652, col: 5, offset: 20631},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20591},
+															pos:   position{line: 652, col: 9, offset: 20635},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																run: (*parser).callonQuotedTextElement66,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9780},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9780},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40454,9 +40454,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9791},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40469,7 +40469,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20610},
+															pos:        position{line: 652, col: 28, offset: 20654},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40478,28 +40478,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20791},
+												pos: position{line: 658, col: 25, offset: 20835},
 												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20791},
+													pos: position{line: 658, col: 25, offset: 20835},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20791},
+															pos:        position{line: 658, col: 25, offset: 20835},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20803},
+															pos:   position{line: 658, col: 37, offset: 20847},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																run: (*parser).callonQuotedTextElement76,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9780},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9780},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40507,9 +40507,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9791},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40522,33 +40522,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20822},
+															pos:   position{line: 658, col: 56, offset: 20866},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20828},
+																pos: position{line: 658, col: 62, offset: 20872},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 666, col: 17, offset: 21167},
 																	run: (*parser).callonQuotedTextElement83,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 666, col: 17, offset: 21167},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 666, col: 17, offset: 21167},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 666, col: 21, offset: 21171},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 666, col: 28, offset: 21178},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 666, col: 28, offset: 21178},
 																							run: (*parser).callonQuotedTextElement88,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 666, col: 28, offset: 21178},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40556,12 +40556,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 668, col: 9, offset: 21232},
 																							run: (*parser).callonQuotedTextElement90,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 668, col: 9, offset: 21232},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 668, col: 9, offset: 21232},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40578,7 +40578,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20844},
+															pos:        position{line: 658, col: 78, offset: 20888},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40587,28 +40587,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 20962},
+												pos: position{line: 662, col: 25, offset: 21006},
 												run: (*parser).callonQuotedTextElement94,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 20962},
+													pos: position{line: 662, col: 25, offset: 21006},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 20962},
+															pos:        position{line: 662, col: 25, offset: 21006},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 20975},
+															pos:   position{line: 662, col: 38, offset: 21019},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9780},
 																run: (*parser).callonQuotedTextElement98,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9780},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9780},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40616,9 +40616,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9791},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40631,33 +40631,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 20994},
+															pos:   position{line: 662, col: 57, offset: 21038},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21000},
+																pos: position{line: 662, col: 63, offset: 21044},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 666, col: 17, offset: 21167},
 																	run: (*parser).callonQuotedTextElement105,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 666, col: 17, offset: 21167},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 666, col: 17, offset: 21167},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 666, col: 21, offset: 21171},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 666, col: 28, offset: 21178},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 666, col: 28, offset: 21178},
 																							run: (*parser).callonQuotedTextElement110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 666, col: 28, offset: 21178},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40665,12 +40665,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 668, col: 9, offset: 21232},
 																							run: (*parser).callonQuotedTextElement112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 668, col: 9, offset: 21232},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 668, col: 9, offset: 21232},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40687,7 +40687,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21016},
+															pos:        position{line: 662, col: 79, offset: 21060},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40702,31 +40702,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2888, col: 18, offset: 91205},
+						pos: position{line: 2888, col: 18, offset: 91249},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2888, col: 18, offset: 91205},
+							pos: position{line: 2888, col: 18, offset: 91249},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40735,27 +40735,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2888, col: 26, offset: 91213},
+									pos: position{line: 2888, col: 26, offset: 91257},
 									expr: &actionExpr{
-										pos: position{line: 2884, col: 12, offset: 91105},
+										pos: position{line: 2884, col: 12, offset: 91149},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2884, col: 13, offset: 91106},
+											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2884, col: 13, offset: 91106},
+													pos:        position{line: 2884, col: 13, offset: 91150},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 20, offset: 91113},
+													pos:        position{line: 2884, col: 20, offset: 91157},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 29, offset: 91122},
+													pos:        position{line: 2884, col: 29, offset: 91166},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40768,31 +40768,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 59900},
+						pos:  position{line: 1859, col: 7, offset: 59944},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 59947},
+						pos:  position{line: 1860, col: 7, offset: 59991},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2469, col: 5, offset: 79394},
+						pos: position{line: 2469, col: 5, offset: 79438},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2469, col: 5, offset: 79394},
+							pos: position{line: 2469, col: 5, offset: 79438},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2469, col: 5, offset: 79394},
+									pos: position{line: 2469, col: 5, offset: 79438},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2472, col: 5, offset: 79470},
+									pos:   position{line: 2472, col: 5, offset: 79514},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2473, col: 9, offset: 79488},
+										pos: position{line: 2473, col: 9, offset: 79532},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2473, col: 10, offset: 79489},
+											pos:        position{line: 2473, col: 10, offset: 79533},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40804,27 +40804,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 36972},
+						pos: position{line: 1198, col: 23, offset: 37016},
 						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 36972},
+							pos: position{line: 1198, col: 23, offset: 37016},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1196, col: 32, offset: 36984},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37000},
+									pos:   position{line: 1198, col: 51, offset: 37044},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37005},
+										pos: position{line: 1198, col: 56, offset: 37049},
 										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37005},
+											pos: position{line: 1198, col: 56, offset: 37049},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37005},
+												pos:        position{line: 1198, col: 56, offset: 37049},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40834,7 +40834,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1196, col: 32, offset: 36984},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40843,10 +40843,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2814, col: 12, offset: 89242},
+						pos: position{line: 2814, col: 12, offset: 89286},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2814, col: 12, offset: 89242},
+							pos:        position{line: 2814, col: 12, offset: 89286},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40858,29 +40858,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1878, col: 1, offset: 60417},
+			pos:  position{line: 1878, col: 1, offset: 60461},
 			expr: &actionExpr{
-				pos: position{line: 1879, col: 5, offset: 60445},
+				pos: position{line: 1879, col: 5, offset: 60489},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1879, col: 5, offset: 60445},
+					pos: position{line: 1879, col: 5, offset: 60489},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1874, col: 38, offset: 60370},
+							pos:        position{line: 1874, col: 38, offset: 60414},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1880, col: 5, offset: 60484},
+							pos:   position{line: 1880, col: 5, offset: 60528},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1880, col: 15, offset: 60494},
+								pos:  position{line: 1880, col: 15, offset: 60538},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1876, col: 36, offset: 60411},
+							pos:        position{line: 1876, col: 36, offset: 60455},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40891,44 +40891,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1885, col: 1, offset: 60654},
+			pos:  position{line: 1885, col: 1, offset: 60698},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1885, col: 32, offset: 60685},
+				pos: position{line: 1885, col: 32, offset: 60729},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1885, col: 32, offset: 60685},
+					pos:  position{line: 1885, col: 32, offset: 60729},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1887, col: 1, offset: 60716},
+			pos:  position{line: 1887, col: 1, offset: 60760},
 			expr: &actionExpr{
-				pos: position{line: 1888, col: 5, offset: 60751},
+				pos: position{line: 1888, col: 5, offset: 60795},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1888, col: 5, offset: 60751},
+					pos: position{line: 1888, col: 5, offset: 60795},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1889, col: 5, offset: 60762},
+							pos: position{line: 1889, col: 5, offset: 60806},
 							expr: &litMatcher{
-								pos:        position{line: 1876, col: 36, offset: 60411},
+								pos:        position{line: 1876, col: 36, offset: 60455},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1890, col: 5, offset: 60799},
+							pos:   position{line: 1890, col: 5, offset: 60843},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1890, col: 14, offset: 60808},
+								pos:  position{line: 1890, col: 14, offset: 60852},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40938,29 +40938,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1915, col: 1, offset: 61488},
+			pos:  position{line: 1915, col: 1, offset: 61532},
 			expr: &actionExpr{
-				pos: position{line: 1916, col: 5, offset: 61516},
+				pos: position{line: 1916, col: 5, offset: 61560},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1916, col: 5, offset: 61516},
+					pos: position{line: 1916, col: 5, offset: 61560},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1899, col: 5, offset: 61042},
+							pos:        position{line: 1899, col: 5, offset: 61086},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1900, col: 5, offset: 61051},
+							pos: position{line: 1900, col: 5, offset: 61095},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1904, col: 5, offset: 61169},
+							pos: position{line: 1904, col: 5, offset: 61213},
 							expr: &notExpr{
-								pos: position{line: 1904, col: 7, offset: 61171},
+								pos: position{line: 1904, col: 7, offset: 61215},
 								expr: &litMatcher{
-									pos:        position{line: 1904, col: 8, offset: 61172},
+									pos:        position{line: 1904, col: 8, offset: 61216},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40968,38 +40968,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1917, col: 5, offset: 61554},
+							pos:   position{line: 1917, col: 5, offset: 61598},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1917, col: 15, offset: 61564},
+								pos:  position{line: 1917, col: 15, offset: 61608},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1907, col: 5, offset: 61292},
+							pos:        position{line: 1907, col: 5, offset: 61336},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1908, col: 5, offset: 61301},
+							pos: position{line: 1908, col: 5, offset: 61345},
 							expr: &litMatcher{
-								pos:        position{line: 1908, col: 6, offset: 61302},
+								pos:        position{line: 1908, col: 6, offset: 61346},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1909, col: 5, offset: 61365},
+							pos: position{line: 1909, col: 5, offset: 61409},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1913, col: 5, offset: 61474},
+							pos: position{line: 1913, col: 5, offset: 61518},
 							expr: &notExpr{
-								pos: position{line: 1913, col: 7, offset: 61476},
+								pos: position{line: 1913, col: 7, offset: 61520},
 								expr: &charClassMatcher{
-									pos:        position{line: 2765, col: 13, offset: 88029},
+									pos:        position{line: 2765, col: 13, offset: 88073},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41013,20 +41013,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1922, col: 1, offset: 61724},
+			pos:  position{line: 1922, col: 1, offset: 61768},
 			expr: &actionExpr{
-				pos: position{line: 1923, col: 5, offset: 61761},
+				pos: position{line: 1923, col: 5, offset: 61805},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1923, col: 5, offset: 61761},
+					pos: position{line: 1923, col: 5, offset: 61805},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1923, col: 5, offset: 61761},
+							pos: position{line: 1923, col: 5, offset: 61805},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41035,18 +41035,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1924, col: 5, offset: 61800},
+							pos:   position{line: 1924, col: 5, offset: 61844},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1924, col: 14, offset: 61809},
+								pos: position{line: 1924, col: 14, offset: 61853},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1924, col: 15, offset: 61810},
+									pos:  position{line: 1924, col: 15, offset: 61854},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 61844},
+							pos: position{line: 1925, col: 5, offset: 61888},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41055,49 +41055,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1931, col: 1, offset: 61985},
+			pos:  position{line: 1931, col: 1, offset: 62029},
 			expr: &actionExpr{
-				pos: position{line: 1932, col: 5, offset: 62020},
+				pos: position{line: 1932, col: 5, offset: 62064},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1932, col: 5, offset: 62020},
+					pos: position{line: 1932, col: 5, offset: 62064},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62048},
+							pos: position{line: 1933, col: 5, offset: 62092},
 							expr: &seqExpr{
-								pos: position{line: 1907, col: 5, offset: 61292},
+								pos: position{line: 1907, col: 5, offset: 61336},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1907, col: 5, offset: 61292},
+										pos:        position{line: 1907, col: 5, offset: 61336},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1908, col: 5, offset: 61301},
+										pos: position{line: 1908, col: 5, offset: 61345},
 										expr: &litMatcher{
-											pos:        position{line: 1908, col: 6, offset: 61302},
+											pos:        position{line: 1908, col: 6, offset: 61346},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1909, col: 5, offset: 61365},
+										pos: position{line: 1909, col: 5, offset: 61409},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1913, col: 5, offset: 61474},
+										pos: position{line: 1913, col: 5, offset: 61518},
 										expr: &notExpr{
-											pos: position{line: 1913, col: 7, offset: 61476},
+											pos: position{line: 1913, col: 7, offset: 61520},
 											expr: &charClassMatcher{
-												pos:        position{line: 2765, col: 13, offset: 88029},
+												pos:        position{line: 2765, col: 13, offset: 88073},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41109,10 +41109,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1934, col: 5, offset: 62085},
+							pos:   position{line: 1934, col: 5, offset: 62129},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1934, col: 14, offset: 62094},
+								pos:  position{line: 1934, col: 14, offset: 62138},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41122,35 +41122,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1939, col: 1, offset: 62182},
+			pos:  position{line: 1939, col: 1, offset: 62226},
 			expr: &choiceExpr{
-				pos: position{line: 1941, col: 5, offset: 62243},
+				pos: position{line: 1941, col: 5, offset: 62287},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1941, col: 5, offset: 62243},
+						pos: position{line: 1941, col: 5, offset: 62287},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1941, col: 5, offset: 62243},
+							pos: position{line: 1941, col: 5, offset: 62287},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1941, col: 5, offset: 62243},
+									pos:   position{line: 1941, col: 5, offset: 62287},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59590},
+										pos: position{line: 1847, col: 25, offset: 59634},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1847, col: 25, offset: 59590},
+											pos: position{line: 1847, col: 25, offset: 59634},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1847, col: 25, offset: 59590},
+													pos:        position{line: 1847, col: 25, offset: 59634},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1847, col: 30, offset: 59595},
+													pos: position{line: 1847, col: 30, offset: 59639},
 													expr: &litMatcher{
-														pos:        position{line: 1847, col: 30, offset: 59595},
+														pos:        position{line: 1847, col: 30, offset: 59639},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41161,21 +41161,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1941, col: 40, offset: 62278},
+									pos:        position{line: 1941, col: 40, offset: 62322},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1941, col: 45, offset: 62283},
+									pos:   position{line: 1941, col: 45, offset: 62327},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1941, col: 55, offset: 62293},
+										pos:  position{line: 1941, col: 55, offset: 62337},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1941, col: 84, offset: 62322},
+									pos:        position{line: 1941, col: 84, offset: 62366},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41184,21 +41184,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1945, col: 7, offset: 62486},
+						pos: position{line: 1945, col: 7, offset: 62530},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1945, col: 7, offset: 62486},
+							pos: position{line: 1945, col: 7, offset: 62530},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1945, col: 7, offset: 62486},
+									pos:   position{line: 1945, col: 7, offset: 62530},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41207,21 +41207,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1945, col: 42, offset: 62521},
+									pos:        position{line: 1945, col: 42, offset: 62565},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1945, col: 47, offset: 62526},
+									pos:   position{line: 1945, col: 47, offset: 62570},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1945, col: 57, offset: 62536},
+										pos:  position{line: 1945, col: 57, offset: 62580},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1945, col: 86, offset: 62565},
+									pos:        position{line: 1945, col: 86, offset: 62609},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41230,21 +41230,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1950, col: 7, offset: 62767},
+						pos: position{line: 1950, col: 7, offset: 62811},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1950, col: 7, offset: 62767},
+							pos: position{line: 1950, col: 7, offset: 62811},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1950, col: 7, offset: 62767},
+									pos:   position{line: 1950, col: 7, offset: 62811},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41253,21 +41253,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 42, offset: 62802},
+									pos:        position{line: 1950, col: 42, offset: 62846},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1950, col: 46, offset: 62806},
+									pos:   position{line: 1950, col: 46, offset: 62850},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1950, col: 56, offset: 62816},
+										pos:  position{line: 1950, col: 56, offset: 62860},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 85, offset: 62845},
+									pos:        position{line: 1950, col: 85, offset: 62889},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41280,29 +41280,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1967, col: 1, offset: 63325},
+			pos:  position{line: 1967, col: 1, offset: 63369},
 			expr: &actionExpr{
-				pos: position{line: 1968, col: 5, offset: 63355},
+				pos: position{line: 1968, col: 5, offset: 63399},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1968, col: 5, offset: 63355},
+					pos: position{line: 1968, col: 5, offset: 63399},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1963, col: 40, offset: 63276},
+							pos:        position{line: 1963, col: 40, offset: 63320},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1969, col: 5, offset: 63396},
+							pos:   position{line: 1969, col: 5, offset: 63440},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1969, col: 15, offset: 63406},
+								pos:  position{line: 1969, col: 15, offset: 63450},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1965, col: 38, offset: 63319},
+							pos:        position{line: 1965, col: 38, offset: 63363},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41313,44 +41313,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1974, col: 1, offset: 63571},
+			pos:  position{line: 1974, col: 1, offset: 63615},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1974, col: 34, offset: 63604},
+				pos: position{line: 1974, col: 34, offset: 63648},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1974, col: 34, offset: 63604},
+					pos:  position{line: 1974, col: 34, offset: 63648},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1976, col: 1, offset: 63636},
+			pos:  position{line: 1976, col: 1, offset: 63680},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63673},
+				pos: position{line: 1977, col: 5, offset: 63717},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63673},
+					pos: position{line: 1977, col: 5, offset: 63717},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1978, col: 5, offset: 63684},
+							pos: position{line: 1978, col: 5, offset: 63728},
 							expr: &litMatcher{
-								pos:        position{line: 1965, col: 38, offset: 63319},
+								pos:        position{line: 1965, col: 38, offset: 63363},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63723},
+							pos:   position{line: 1979, col: 5, offset: 63767},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 14, offset: 63732},
+								pos:  position{line: 1979, col: 14, offset: 63776},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41360,29 +41360,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2005, col: 1, offset: 64416},
+			pos:  position{line: 2005, col: 1, offset: 64460},
 			expr: &actionExpr{
-				pos: position{line: 2006, col: 5, offset: 64446},
+				pos: position{line: 2006, col: 5, offset: 64490},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2006, col: 5, offset: 64446},
+					pos: position{line: 2006, col: 5, offset: 64490},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 5, offset: 63974},
+							pos:        position{line: 1988, col: 5, offset: 64018},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1989, col: 5, offset: 63983},
+							pos: position{line: 1989, col: 5, offset: 64027},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1993, col: 5, offset: 64103},
+							pos: position{line: 1993, col: 5, offset: 64147},
 							expr: &notExpr{
-								pos: position{line: 1993, col: 7, offset: 64105},
+								pos: position{line: 1993, col: 7, offset: 64149},
 								expr: &litMatcher{
-									pos:        position{line: 1993, col: 8, offset: 64106},
+									pos:        position{line: 1993, col: 8, offset: 64150},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41390,38 +41390,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2007, col: 5, offset: 64486},
+							pos:   position{line: 2007, col: 5, offset: 64530},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2007, col: 15, offset: 64496},
+								pos:  position{line: 2007, col: 15, offset: 64540},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1997, col: 5, offset: 64216},
+							pos:        position{line: 1997, col: 5, offset: 64260},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1998, col: 5, offset: 64225},
+							pos: position{line: 1998, col: 5, offset: 64269},
 							expr: &litMatcher{
-								pos:        position{line: 1998, col: 6, offset: 64226},
+								pos:        position{line: 1998, col: 6, offset: 64270},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1999, col: 5, offset: 64291},
+							pos: position{line: 1999, col: 5, offset: 64335},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2003, col: 5, offset: 64402},
+							pos: position{line: 2003, col: 5, offset: 64446},
 							expr: &notExpr{
-								pos: position{line: 2003, col: 7, offset: 64404},
+								pos: position{line: 2003, col: 7, offset: 64448},
 								expr: &charClassMatcher{
-									pos:        position{line: 2765, col: 13, offset: 88029},
+									pos:        position{line: 2765, col: 13, offset: 88073},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41435,20 +41435,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2012, col: 1, offset: 64663},
+			pos:  position{line: 2012, col: 1, offset: 64707},
 			expr: &actionExpr{
-				pos: position{line: 2013, col: 5, offset: 64701},
+				pos: position{line: 2013, col: 5, offset: 64745},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2013, col: 5, offset: 64701},
+					pos: position{line: 2013, col: 5, offset: 64745},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2013, col: 5, offset: 64701},
+							pos: position{line: 2013, col: 5, offset: 64745},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41457,18 +41457,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2014, col: 5, offset: 64740},
+							pos:   position{line: 2014, col: 5, offset: 64784},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2014, col: 14, offset: 64749},
+								pos: position{line: 2014, col: 14, offset: 64793},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2014, col: 15, offset: 64750},
+									pos:  position{line: 2014, col: 15, offset: 64794},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2015, col: 5, offset: 64785},
+							pos: position{line: 2015, col: 5, offset: 64829},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41477,49 +41477,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2021, col: 1, offset: 64926},
+			pos:  position{line: 2021, col: 1, offset: 64970},
 			expr: &actionExpr{
-				pos: position{line: 2022, col: 5, offset: 64963},
+				pos: position{line: 2022, col: 5, offset: 65007},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2022, col: 5, offset: 64963},
+					pos: position{line: 2022, col: 5, offset: 65007},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 64974},
+							pos: position{line: 2023, col: 5, offset: 65018},
 							expr: &seqExpr{
-								pos: position{line: 1997, col: 5, offset: 64216},
+								pos: position{line: 1997, col: 5, offset: 64260},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1997, col: 5, offset: 64216},
+										pos:        position{line: 1997, col: 5, offset: 64260},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1998, col: 5, offset: 64225},
+										pos: position{line: 1998, col: 5, offset: 64269},
 										expr: &litMatcher{
-											pos:        position{line: 1998, col: 6, offset: 64226},
+											pos:        position{line: 1998, col: 6, offset: 64270},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1999, col: 5, offset: 64291},
+										pos: position{line: 1999, col: 5, offset: 64335},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2003, col: 5, offset: 64402},
+										pos: position{line: 2003, col: 5, offset: 64446},
 										expr: &notExpr{
-											pos: position{line: 2003, col: 7, offset: 64404},
+											pos: position{line: 2003, col: 7, offset: 64448},
 											expr: &charClassMatcher{
-												pos:        position{line: 2765, col: 13, offset: 88029},
+												pos:        position{line: 2765, col: 13, offset: 88073},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41531,10 +41531,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2024, col: 5, offset: 65013},
+							pos:   position{line: 2024, col: 5, offset: 65057},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2024, col: 14, offset: 65022},
+								pos:  position{line: 2024, col: 14, offset: 65066},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41544,35 +41544,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2029, col: 1, offset: 65110},
+			pos:  position{line: 2029, col: 1, offset: 65154},
 			expr: &choiceExpr{
-				pos: position{line: 2031, col: 5, offset: 65175},
+				pos: position{line: 2031, col: 5, offset: 65219},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2031, col: 5, offset: 65175},
+						pos: position{line: 2031, col: 5, offset: 65219},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2031, col: 5, offset: 65175},
+							pos: position{line: 2031, col: 5, offset: 65219},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2031, col: 5, offset: 65175},
+									pos:   position{line: 2031, col: 5, offset: 65219},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59590},
+										pos: position{line: 1847, col: 25, offset: 59634},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1847, col: 25, offset: 59590},
+											pos: position{line: 1847, col: 25, offset: 59634},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1847, col: 25, offset: 59590},
+													pos:        position{line: 1847, col: 25, offset: 59634},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1847, col: 30, offset: 59595},
+													pos: position{line: 1847, col: 30, offset: 59639},
 													expr: &litMatcher{
-														pos:        position{line: 1847, col: 30, offset: 59595},
+														pos:        position{line: 1847, col: 30, offset: 59639},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41583,21 +41583,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2031, col: 40, offset: 65210},
+									pos:        position{line: 2031, col: 40, offset: 65254},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2031, col: 45, offset: 65215},
+									pos:   position{line: 2031, col: 45, offset: 65259},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2031, col: 55, offset: 65225},
+										pos:  position{line: 2031, col: 55, offset: 65269},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2031, col: 86, offset: 65256},
+									pos:        position{line: 2031, col: 86, offset: 65300},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41606,21 +41606,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2035, col: 7, offset: 65421},
+						pos: position{line: 2035, col: 7, offset: 65465},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2035, col: 7, offset: 65421},
+							pos: position{line: 2035, col: 7, offset: 65465},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2035, col: 7, offset: 65421},
+									pos:   position{line: 2035, col: 7, offset: 65465},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41629,21 +41629,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2035, col: 42, offset: 65456},
+									pos:        position{line: 2035, col: 42, offset: 65500},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2035, col: 47, offset: 65461},
+									pos:   position{line: 2035, col: 47, offset: 65505},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2035, col: 57, offset: 65471},
+										pos:  position{line: 2035, col: 57, offset: 65515},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2035, col: 88, offset: 65502},
+									pos:        position{line: 2035, col: 88, offset: 65546},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41652,21 +41652,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2040, col: 7, offset: 65743},
+						pos: position{line: 2040, col: 7, offset: 65787},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2040, col: 7, offset: 65743},
+							pos: position{line: 2040, col: 7, offset: 65787},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2040, col: 7, offset: 65743},
+									pos:   position{line: 2040, col: 7, offset: 65787},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41675,21 +41675,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 42, offset: 65778},
+									pos:        position{line: 2040, col: 42, offset: 65822},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2040, col: 46, offset: 65782},
+									pos:   position{line: 2040, col: 46, offset: 65826},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2040, col: 56, offset: 65792},
+										pos:  position{line: 2040, col: 56, offset: 65836},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 87, offset: 65823},
+									pos:        position{line: 2040, col: 87, offset: 65867},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41702,29 +41702,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2057, col: 1, offset: 66387},
+			pos:  position{line: 2057, col: 1, offset: 66431},
 			expr: &actionExpr{
-				pos: position{line: 2058, col: 5, offset: 66420},
+				pos: position{line: 2058, col: 5, offset: 66464},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2058, col: 5, offset: 66420},
+					pos: position{line: 2058, col: 5, offset: 66464},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2053, col: 43, offset: 66335},
+							pos:        position{line: 2053, col: 43, offset: 66379},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2059, col: 5, offset: 66464},
+							pos:   position{line: 2059, col: 5, offset: 66508},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2059, col: 15, offset: 66474},
+								pos:  position{line: 2059, col: 15, offset: 66518},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2055, col: 41, offset: 66381},
+							pos:        position{line: 2055, col: 41, offset: 66425},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41735,44 +41735,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2064, col: 1, offset: 66649},
+			pos:  position{line: 2064, col: 1, offset: 66693},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2064, col: 37, offset: 66685},
+				pos: position{line: 2064, col: 37, offset: 66729},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2064, col: 37, offset: 66685},
+					pos:  position{line: 2064, col: 37, offset: 66729},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2066, col: 1, offset: 66752},
+			pos:  position{line: 2066, col: 1, offset: 66796},
 			expr: &actionExpr{
-				pos: position{line: 2067, col: 5, offset: 66792},
+				pos: position{line: 2067, col: 5, offset: 66836},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2067, col: 5, offset: 66792},
+					pos: position{line: 2067, col: 5, offset: 66836},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2068, col: 5, offset: 66803},
+							pos: position{line: 2068, col: 5, offset: 66847},
 							expr: &litMatcher{
-								pos:        position{line: 2055, col: 41, offset: 66381},
+								pos:        position{line: 2055, col: 41, offset: 66425},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2069, col: 5, offset: 66845},
+							pos:   position{line: 2069, col: 5, offset: 66889},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2069, col: 14, offset: 66854},
+								pos:  position{line: 2069, col: 14, offset: 66898},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41782,33 +41782,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2087, col: 1, offset: 67396},
+			pos:  position{line: 2087, col: 1, offset: 67440},
 			expr: &seqExpr{
-				pos: position{line: 2088, col: 5, offset: 67441},
+				pos: position{line: 2088, col: 5, offset: 67485},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2088, col: 5, offset: 67441},
+						pos: position{line: 2088, col: 5, offset: 67485},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2088, col: 6, offset: 67442},
+							pos:  position{line: 2088, col: 6, offset: 67486},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2089, col: 5, offset: 67461},
+						pos:        position{line: 2089, col: 5, offset: 67505},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2090, col: 5, offset: 67469},
+						pos: position{line: 2090, col: 5, offset: 67513},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2094, col: 5, offset: 67583},
+						pos: position{line: 2094, col: 5, offset: 67627},
 						expr: &notExpr{
-							pos: position{line: 2094, col: 7, offset: 67585},
+							pos: position{line: 2094, col: 7, offset: 67629},
 							expr: &charClassMatcher{
-								pos:        position{line: 2765, col: 13, offset: 88029},
+								pos:        position{line: 2765, col: 13, offset: 88073},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41821,29 +41821,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2097, col: 1, offset: 67602},
+			pos:  position{line: 2097, col: 1, offset: 67646},
 			expr: &actionExpr{
-				pos: position{line: 2098, col: 5, offset: 67635},
+				pos: position{line: 2098, col: 5, offset: 67679},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2098, col: 5, offset: 67635},
+					pos: position{line: 2098, col: 5, offset: 67679},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2080, col: 5, offset: 67198},
+							pos:        position{line: 2080, col: 5, offset: 67242},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2081, col: 5, offset: 67207},
+							pos: position{line: 2081, col: 5, offset: 67251},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2085, col: 5, offset: 67330},
+							pos: position{line: 2085, col: 5, offset: 67374},
 							expr: &notExpr{
-								pos: position{line: 2085, col: 7, offset: 67332},
+								pos: position{line: 2085, col: 7, offset: 67376},
 								expr: &litMatcher{
-									pos:        position{line: 2085, col: 8, offset: 67333},
+									pos:        position{line: 2085, col: 8, offset: 67377},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41851,15 +41851,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2099, col: 5, offset: 67679},
+							pos:   position{line: 2099, col: 5, offset: 67723},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2099, col: 15, offset: 67689},
+								pos:  position{line: 2099, col: 15, offset: 67733},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2100, col: 5, offset: 67728},
+							pos:  position{line: 2100, col: 5, offset: 67772},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41868,20 +41868,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2104, col: 1, offset: 67865},
+			pos:  position{line: 2104, col: 1, offset: 67909},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67906},
+				pos: position{line: 2105, col: 5, offset: 67950},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67906},
+					pos: position{line: 2105, col: 5, offset: 67950},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2105, col: 5, offset: 67906},
+							pos: position{line: 2105, col: 5, offset: 67950},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41890,18 +41890,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 67945},
+							pos:   position{line: 2106, col: 5, offset: 67989},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2106, col: 14, offset: 67954},
+								pos: position{line: 2106, col: 14, offset: 67998},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2106, col: 15, offset: 67955},
+									pos:  position{line: 2106, col: 15, offset: 67999},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2107, col: 5, offset: 67993},
+							pos: position{line: 2107, col: 5, offset: 68037},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41910,31 +41910,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2113, col: 1, offset: 68134},
+			pos:  position{line: 2113, col: 1, offset: 68178},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68174},
+				pos: position{line: 2114, col: 5, offset: 68218},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68174},
+					pos: position{line: 2114, col: 5, offset: 68218},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68185},
+							pos: position{line: 2115, col: 5, offset: 68229},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2115, col: 6, offset: 68186},
+								pos:  position{line: 2115, col: 6, offset: 68230},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68227},
+							pos:   position{line: 2116, col: 5, offset: 68271},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2116, col: 14, offset: 68236},
+								pos:  position{line: 2116, col: 14, offset: 68280},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41944,35 +41944,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2121, col: 1, offset: 68324},
+			pos:  position{line: 2121, col: 1, offset: 68368},
 			expr: &choiceExpr{
-				pos: position{line: 2123, col: 5, offset: 68395},
+				pos: position{line: 2123, col: 5, offset: 68439},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2123, col: 5, offset: 68395},
+						pos: position{line: 2123, col: 5, offset: 68439},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2123, col: 5, offset: 68395},
+							pos: position{line: 2123, col: 5, offset: 68439},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2123, col: 5, offset: 68395},
+									pos:   position{line: 2123, col: 5, offset: 68439},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59590},
+										pos: position{line: 1847, col: 25, offset: 59634},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1847, col: 25, offset: 59590},
+											pos: position{line: 1847, col: 25, offset: 59634},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1847, col: 25, offset: 59590},
+													pos:        position{line: 1847, col: 25, offset: 59634},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1847, col: 30, offset: 59595},
+													pos: position{line: 1847, col: 30, offset: 59639},
 													expr: &litMatcher{
-														pos:        position{line: 1847, col: 30, offset: 59595},
+														pos:        position{line: 1847, col: 30, offset: 59639},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41983,21 +41983,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2123, col: 40, offset: 68430},
+									pos:        position{line: 2123, col: 40, offset: 68474},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2123, col: 45, offset: 68435},
+									pos:   position{line: 2123, col: 45, offset: 68479},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2123, col: 55, offset: 68445},
+										pos:  position{line: 2123, col: 55, offset: 68489},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2123, col: 89, offset: 68479},
+									pos:        position{line: 2123, col: 89, offset: 68523},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42006,21 +42006,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2127, col: 7, offset: 68648},
+						pos: position{line: 2127, col: 7, offset: 68692},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2127, col: 7, offset: 68648},
+							pos: position{line: 2127, col: 7, offset: 68692},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2127, col: 7, offset: 68648},
+									pos:   position{line: 2127, col: 7, offset: 68692},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42029,21 +42029,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2127, col: 42, offset: 68683},
+									pos:        position{line: 2127, col: 42, offset: 68727},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2127, col: 47, offset: 68688},
+									pos:   position{line: 2127, col: 47, offset: 68732},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2127, col: 57, offset: 68698},
+										pos:  position{line: 2127, col: 57, offset: 68742},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2127, col: 91, offset: 68732},
+									pos:        position{line: 2127, col: 91, offset: 68776},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42052,21 +42052,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2132, col: 7, offset: 68938},
+						pos: position{line: 2132, col: 7, offset: 68982},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2132, col: 7, offset: 68938},
+							pos: position{line: 2132, col: 7, offset: 68982},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2132, col: 7, offset: 68938},
+									pos:   position{line: 2132, col: 7, offset: 68982},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42075,21 +42075,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 42, offset: 68973},
+									pos:        position{line: 2132, col: 42, offset: 69017},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2132, col: 46, offset: 68977},
+									pos:   position{line: 2132, col: 46, offset: 69021},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2132, col: 56, offset: 68987},
+										pos:  position{line: 2132, col: 56, offset: 69031},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 90, offset: 69021},
+									pos:        position{line: 2132, col: 90, offset: 69065},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42102,29 +42102,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2149, col: 1, offset: 69506},
+			pos:  position{line: 2149, col: 1, offset: 69550},
 			expr: &actionExpr{
-				pos: position{line: 2150, col: 5, offset: 69536},
+				pos: position{line: 2150, col: 5, offset: 69580},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2150, col: 5, offset: 69536},
+					pos: position{line: 2150, col: 5, offset: 69580},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2145, col: 40, offset: 69457},
+							pos:        position{line: 2145, col: 40, offset: 69501},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2151, col: 5, offset: 69577},
+							pos:   position{line: 2151, col: 5, offset: 69621},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2151, col: 15, offset: 69587},
+								pos:  position{line: 2151, col: 15, offset: 69631},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2147, col: 38, offset: 69500},
+							pos:        position{line: 2147, col: 38, offset: 69544},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42135,44 +42135,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2156, col: 1, offset: 69753},
+			pos:  position{line: 2156, col: 1, offset: 69797},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2156, col: 34, offset: 69786},
+				pos: position{line: 2156, col: 34, offset: 69830},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2156, col: 34, offset: 69786},
+					pos:  position{line: 2156, col: 34, offset: 69830},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2158, col: 1, offset: 69817},
+			pos:  position{line: 2158, col: 1, offset: 69861},
 			expr: &actionExpr{
-				pos: position{line: 2159, col: 5, offset: 69886},
+				pos: position{line: 2159, col: 5, offset: 69930},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2159, col: 5, offset: 69886},
+					pos: position{line: 2159, col: 5, offset: 69930},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2160, col: 5, offset: 69897},
+							pos: position{line: 2160, col: 5, offset: 69941},
 							expr: &litMatcher{
-								pos:        position{line: 2147, col: 38, offset: 69500},
+								pos:        position{line: 2147, col: 38, offset: 69544},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2161, col: 5, offset: 69936},
+							pos:   position{line: 2161, col: 5, offset: 69980},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2161, col: 14, offset: 69945},
+								pos:  position{line: 2161, col: 14, offset: 69989},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42182,29 +42182,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2186, col: 1, offset: 70627},
+			pos:  position{line: 2186, col: 1, offset: 70671},
 			expr: &actionExpr{
-				pos: position{line: 2187, col: 5, offset: 70657},
+				pos: position{line: 2187, col: 5, offset: 70701},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2187, col: 5, offset: 70657},
+					pos: position{line: 2187, col: 5, offset: 70701},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2170, col: 5, offset: 70193},
+							pos:        position{line: 2170, col: 5, offset: 70237},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2171, col: 5, offset: 70202},
+							pos: position{line: 2171, col: 5, offset: 70246},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2175, col: 5, offset: 70322},
+							pos: position{line: 2175, col: 5, offset: 70366},
 							expr: &notExpr{
-								pos: position{line: 2175, col: 7, offset: 70324},
+								pos: position{line: 2175, col: 7, offset: 70368},
 								expr: &litMatcher{
-									pos:        position{line: 2175, col: 8, offset: 70325},
+									pos:        position{line: 2175, col: 8, offset: 70369},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42212,38 +42212,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2188, col: 5, offset: 70697},
+							pos:   position{line: 2188, col: 5, offset: 70741},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2188, col: 15, offset: 70707},
+								pos:  position{line: 2188, col: 15, offset: 70751},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2178, col: 5, offset: 70430},
+							pos:        position{line: 2178, col: 5, offset: 70474},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2179, col: 5, offset: 70438},
+							pos: position{line: 2179, col: 5, offset: 70482},
 							expr: &litMatcher{
-								pos:        position{line: 2179, col: 6, offset: 70439},
+								pos:        position{line: 2179, col: 6, offset: 70483},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2180, col: 5, offset: 70502},
+							pos: position{line: 2180, col: 5, offset: 70546},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2184, col: 5, offset: 70613},
+							pos: position{line: 2184, col: 5, offset: 70657},
 							expr: &notExpr{
-								pos: position{line: 2184, col: 7, offset: 70615},
+								pos: position{line: 2184, col: 7, offset: 70659},
 								expr: &charClassMatcher{
-									pos:        position{line: 2765, col: 13, offset: 88029},
+									pos:        position{line: 2765, col: 13, offset: 88073},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42257,20 +42257,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2193, col: 1, offset: 70874},
+			pos:  position{line: 2193, col: 1, offset: 70918},
 			expr: &actionExpr{
-				pos: position{line: 2194, col: 5, offset: 70912},
+				pos: position{line: 2194, col: 5, offset: 70956},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2194, col: 5, offset: 70912},
+					pos: position{line: 2194, col: 5, offset: 70956},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2194, col: 5, offset: 70912},
+							pos: position{line: 2194, col: 5, offset: 70956},
 							expr: &actionExpr{
-								pos: position{line: 2875, col: 10, offset: 90934},
+								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2875, col: 10, offset: 90934},
+									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42279,18 +42279,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2195, col: 5, offset: 70951},
+							pos:   position{line: 2195, col: 5, offset: 70995},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2195, col: 14, offset: 70960},
+								pos: position{line: 2195, col: 14, offset: 71004},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2195, col: 15, offset: 70961},
+									pos:  position{line: 2195, col: 15, offset: 71005},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 70997},
+							pos: position{line: 2196, col: 5, offset: 71041},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42299,49 +42299,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2202, col: 1, offset: 71138},
+			pos:  position{line: 2202, col: 1, offset: 71182},
 			expr: &actionExpr{
-				pos: position{line: 2203, col: 5, offset: 71175},
+				pos: position{line: 2203, col: 5, offset: 71219},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2203, col: 5, offset: 71175},
+					pos: position{line: 2203, col: 5, offset: 71219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71186},
+							pos: position{line: 2204, col: 5, offset: 71230},
 							expr: &seqExpr{
-								pos: position{line: 2178, col: 5, offset: 70430},
+								pos: position{line: 2178, col: 5, offset: 70474},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2178, col: 5, offset: 70430},
+										pos:        position{line: 2178, col: 5, offset: 70474},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2179, col: 5, offset: 70438},
+										pos: position{line: 2179, col: 5, offset: 70482},
 										expr: &litMatcher{
-											pos:        position{line: 2179, col: 6, offset: 70439},
+											pos:        position{line: 2179, col: 6, offset: 70483},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2180, col: 5, offset: 70502},
+										pos: position{line: 2180, col: 5, offset: 70546},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2184, col: 5, offset: 70613},
+										pos: position{line: 2184, col: 5, offset: 70657},
 										expr: &notExpr{
-											pos: position{line: 2184, col: 7, offset: 70615},
+											pos: position{line: 2184, col: 7, offset: 70659},
 											expr: &charClassMatcher{
-												pos:        position{line: 2765, col: 13, offset: 88029},
+												pos:        position{line: 2765, col: 13, offset: 88073},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42353,10 +42353,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71225},
+							pos:   position{line: 2205, col: 5, offset: 71269},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2205, col: 14, offset: 71234},
+								pos:  position{line: 2205, col: 14, offset: 71278},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42366,35 +42366,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2210, col: 1, offset: 71322},
+			pos:  position{line: 2210, col: 1, offset: 71366},
 			expr: &choiceExpr{
-				pos: position{line: 2212, col: 5, offset: 71386},
+				pos: position{line: 2212, col: 5, offset: 71430},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2212, col: 5, offset: 71386},
+						pos: position{line: 2212, col: 5, offset: 71430},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2212, col: 5, offset: 71386},
+							pos: position{line: 2212, col: 5, offset: 71430},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2212, col: 5, offset: 71386},
+									pos:   position{line: 2212, col: 5, offset: 71430},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1847, col: 25, offset: 59590},
+										pos: position{line: 1847, col: 25, offset: 59634},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1847, col: 25, offset: 59590},
+											pos: position{line: 1847, col: 25, offset: 59634},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1847, col: 25, offset: 59590},
+													pos:        position{line: 1847, col: 25, offset: 59634},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1847, col: 30, offset: 59595},
+													pos: position{line: 1847, col: 30, offset: 59639},
 													expr: &litMatcher{
-														pos:        position{line: 1847, col: 30, offset: 59595},
+														pos:        position{line: 1847, col: 30, offset: 59639},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42405,21 +42405,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2212, col: 40, offset: 71421},
+									pos:        position{line: 2212, col: 40, offset: 71465},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2212, col: 45, offset: 71426},
+									pos:   position{line: 2212, col: 45, offset: 71470},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2212, col: 55, offset: 71436},
+										pos:  position{line: 2212, col: 55, offset: 71480},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2212, col: 86, offset: 71467},
+									pos:        position{line: 2212, col: 86, offset: 71511},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42428,21 +42428,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2216, col: 7, offset: 71632},
+						pos: position{line: 2216, col: 7, offset: 71676},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2216, col: 7, offset: 71632},
+							pos: position{line: 2216, col: 7, offset: 71676},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2216, col: 7, offset: 71632},
+									pos:   position{line: 2216, col: 7, offset: 71676},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42451,21 +42451,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2216, col: 42, offset: 71667},
+									pos:        position{line: 2216, col: 42, offset: 71711},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2216, col: 47, offset: 71672},
+									pos:   position{line: 2216, col: 47, offset: 71716},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2216, col: 57, offset: 71682},
+										pos:  position{line: 2216, col: 57, offset: 71726},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2216, col: 88, offset: 71713},
+									pos:        position{line: 2216, col: 88, offset: 71757},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42474,21 +42474,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2221, col: 7, offset: 71916},
+						pos: position{line: 2221, col: 7, offset: 71960},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2221, col: 7, offset: 71916},
+							pos: position{line: 2221, col: 7, offset: 71960},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2221, col: 7, offset: 71916},
+									pos:   position{line: 2221, col: 7, offset: 71960},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1843, col: 25, offset: 59517},
+										pos: position{line: 1843, col: 25, offset: 59561},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1843, col: 25, offset: 59517},
+											pos: position{line: 1843, col: 25, offset: 59561},
 											expr: &litMatcher{
-												pos:        position{line: 1843, col: 25, offset: 59517},
+												pos:        position{line: 1843, col: 25, offset: 59561},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42497,21 +42497,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 42, offset: 71951},
+									pos:        position{line: 2221, col: 42, offset: 71995},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2221, col: 46, offset: 71955},
+									pos:   position{line: 2221, col: 46, offset: 71999},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2221, col: 56, offset: 71965},
+										pos:  position{line: 2221, col: 56, offset: 72009},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 87, offset: 71996},
+									pos:        position{line: 2221, col: 87, offset: 72040},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42524,29 +42524,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2228, col: 1, offset: 72263},
+			pos:  position{line: 2228, col: 1, offset: 72307},
 			expr: &actionExpr{
-				pos: position{line: 2229, col: 5, offset: 72285},
+				pos: position{line: 2229, col: 5, offset: 72329},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2229, col: 5, offset: 72285},
+					pos: position{line: 2229, col: 5, offset: 72329},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2235, col: 27, offset: 72500},
+							pos:        position{line: 2235, col: 27, offset: 72544},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2230, col: 5, offset: 72312},
+							pos:   position{line: 2230, col: 5, offset: 72356},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2230, col: 14, offset: 72321},
+								pos:  position{line: 2230, col: 14, offset: 72365},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2235, col: 27, offset: 72500},
+							pos:        position{line: 2235, col: 27, offset: 72544},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42557,32 +42557,32 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2237, col: 1, offset: 72505},
+			pos:  position{line: 2237, col: 1, offset: 72549},
 			expr: &choiceExpr{
-				pos: position{line: 2237, col: 25, offset: 72529},
+				pos: position{line: 2237, col: 25, offset: 72573},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2237, col: 25, offset: 72529},
+						pos:  position{line: 2237, col: 25, offset: 72573},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2239, col: 21, offset: 72581},
+						pos: position{line: 2239, col: 21, offset: 72625},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2239, col: 21, offset: 72581},
+							pos:   position{line: 2239, col: 21, offset: 72625},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2239, col: 30, offset: 72590},
+								pos: position{line: 2239, col: 30, offset: 72634},
 								expr: &choiceExpr{
-									pos: position{line: 2244, col: 5, offset: 72724},
+									pos: position{line: 2244, col: 5, offset: 72768},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2244, col: 5, offset: 72724},
+											pos: position{line: 2244, col: 5, offset: 72768},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2244, col: 5, offset: 72724},
+												pos: position{line: 2244, col: 5, offset: 72768},
 												expr: &charClassMatcher{
-													pos:        position{line: 2244, col: 5, offset: 72724},
+													pos:        position{line: 2244, col: 5, offset: 72768},
 													val:        "[^\\r\\n ~<>&]",
 													chars:      []rune{'\r', '\n', ' ', '~', '<', '>', '&'},
 													ignoreCase: false,
@@ -42591,23 +42591,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2469, col: 5, offset: 79394},
+											pos: position{line: 2469, col: 5, offset: 79438},
 											run: (*parser).callonSubscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2469, col: 5, offset: 79394},
+												pos: position{line: 2469, col: 5, offset: 79438},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2469, col: 5, offset: 79394},
+														pos: position{line: 2469, col: 5, offset: 79438},
 														run: (*parser).callonSubscriptTextElement12,
 													},
 													&labeledExpr{
-														pos:   position{line: 2472, col: 5, offset: 79470},
+														pos:   position{line: 2472, col: 5, offset: 79514},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2473, col: 9, offset: 79488},
+															pos: position{line: 2473, col: 9, offset: 79532},
 															run: (*parser).callonSubscriptTextElement14,
 															expr: &charClassMatcher{
-																pos:        position{line: 2473, col: 10, offset: 79489},
+																pos:        position{line: 2473, col: 10, offset: 79533},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42619,10 +42619,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2248, col: 7, offset: 72802},
+											pos: position{line: 2248, col: 7, offset: 72846},
 											run: (*parser).callonSubscriptTextElement16,
 											expr: &charClassMatcher{
-												pos:        position{line: 2248, col: 7, offset: 72802},
+												pos:        position{line: 2248, col: 7, offset: 72846},
 												val:        "[<>&]",
 												chars:      []rune{'<', '>', '&'},
 												ignoreCase: false,
@@ -42639,23 +42639,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2252, col: 1, offset: 72901},
+			pos:  position{line: 2252, col: 1, offset: 72945},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 72968},
+				pos: position{line: 2254, col: 5, offset: 73012},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 72968},
+					pos: position{line: 2254, col: 5, offset: 73012},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 72968},
+							pos:   position{line: 2254, col: 5, offset: 73012},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1843, col: 25, offset: 59517},
+								pos: position{line: 1843, col: 25, offset: 59561},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1843, col: 25, offset: 59517},
+									pos: position{line: 1843, col: 25, offset: 59561},
 									expr: &litMatcher{
-										pos:        position{line: 1843, col: 25, offset: 59517},
+										pos:        position{line: 1843, col: 25, offset: 59561},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42664,21 +42664,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2235, col: 27, offset: 72500},
+							pos:        position{line: 2235, col: 27, offset: 72544},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73036},
+							pos:   position{line: 2256, col: 5, offset: 73080},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73045},
+								pos:  position{line: 2256, col: 14, offset: 73089},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2235, col: 27, offset: 72500},
+							pos:        position{line: 2235, col: 27, offset: 72544},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42689,29 +42689,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73308},
+			pos:  position{line: 2264, col: 1, offset: 73352},
 			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73332},
+				pos: position{line: 2265, col: 5, offset: 73376},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73332},
+					pos: position{line: 2265, col: 5, offset: 73376},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73559},
+							pos:        position{line: 2271, col: 29, offset: 73603},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73362},
+							pos:   position{line: 2266, col: 5, offset: 73406},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73371},
+								pos:  position{line: 2266, col: 14, offset: 73415},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73559},
+							pos:        position{line: 2271, col: 29, offset: 73603},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42722,32 +42722,32 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73564},
+			pos:  position{line: 2273, col: 1, offset: 73608},
 			expr: &choiceExpr{
-				pos: position{line: 2273, col: 27, offset: 73590},
+				pos: position{line: 2273, col: 27, offset: 73634},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2273, col: 27, offset: 73590},
+						pos:  position{line: 2273, col: 27, offset: 73634},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 23, offset: 73646},
+						pos: position{line: 2275, col: 23, offset: 73690},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2275, col: 23, offset: 73646},
+							pos:   position{line: 2275, col: 23, offset: 73690},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2275, col: 32, offset: 73655},
+								pos: position{line: 2275, col: 32, offset: 73699},
 								expr: &choiceExpr{
-									pos: position{line: 2280, col: 5, offset: 73793},
+									pos: position{line: 2280, col: 5, offset: 73837},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2280, col: 5, offset: 73793},
+											pos: position{line: 2280, col: 5, offset: 73837},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2280, col: 5, offset: 73793},
+												pos: position{line: 2280, col: 5, offset: 73837},
 												expr: &charClassMatcher{
-													pos:        position{line: 2280, col: 5, offset: 73793},
+													pos:        position{line: 2280, col: 5, offset: 73837},
 													val:        "[^\\r\\n ^<>&]",
 													chars:      []rune{'\r', '\n', ' ', '^', '<', '>', '&'},
 													ignoreCase: false,
@@ -42756,23 +42756,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2469, col: 5, offset: 79394},
+											pos: position{line: 2469, col: 5, offset: 79438},
 											run: (*parser).callonSuperscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2469, col: 5, offset: 79394},
+												pos: position{line: 2469, col: 5, offset: 79438},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2469, col: 5, offset: 79394},
+														pos: position{line: 2469, col: 5, offset: 79438},
 														run: (*parser).callonSuperscriptTextElement12,
 													},
 													&labeledExpr{
-														pos:   position{line: 2472, col: 5, offset: 79470},
+														pos:   position{line: 2472, col: 5, offset: 79514},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2473, col: 9, offset: 79488},
+															pos: position{line: 2473, col: 9, offset: 79532},
 															run: (*parser).callonSuperscriptTextElement14,
 															expr: &charClassMatcher{
-																pos:        position{line: 2473, col: 10, offset: 79489},
+																pos:        position{line: 2473, col: 10, offset: 79533},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42784,10 +42784,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2284, col: 7, offset: 73871},
+											pos: position{line: 2284, col: 7, offset: 73915},
 											run: (*parser).callonSuperscriptTextElement16,
 											expr: &charClassMatcher{
-												pos:        position{line: 2284, col: 7, offset: 73871},
+												pos:        position{line: 2284, col: 7, offset: 73915},
 												val:        "[<>&]",
 												chars:      []rune{'<', '>', '&'},
 												ignoreCase: false,
@@ -42804,23 +42804,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2288, col: 1, offset: 73970},
+			pos:  position{line: 2288, col: 1, offset: 74014},
 			expr: &actionExpr{
-				pos: position{line: 2290, col: 5, offset: 74042},
+				pos: position{line: 2290, col: 5, offset: 74086},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2290, col: 5, offset: 74042},
+					pos: position{line: 2290, col: 5, offset: 74086},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2290, col: 5, offset: 74042},
+							pos:   position{line: 2290, col: 5, offset: 74086},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1843, col: 25, offset: 59517},
+								pos: position{line: 1843, col: 25, offset: 59561},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1843, col: 25, offset: 59517},
+									pos: position{line: 1843, col: 25, offset: 59561},
 									expr: &litMatcher{
-										pos:        position{line: 1843, col: 25, offset: 59517},
+										pos:        position{line: 1843, col: 25, offset: 59561},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42829,21 +42829,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73559},
+							pos:        position{line: 2271, col: 29, offset: 73603},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2292, col: 5, offset: 74112},
+							pos:   position{line: 2292, col: 5, offset: 74156},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2292, col: 14, offset: 74121},
+								pos:  position{line: 2292, col: 14, offset: 74165},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73559},
+							pos:        position{line: 2271, col: 29, offset: 73603},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42854,27 +42854,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2301, col: 1, offset: 74590},
+			pos:  position{line: 2301, col: 1, offset: 74634},
 			expr: &actionExpr{
-				pos: position{line: 2302, col: 5, offset: 74606},
+				pos: position{line: 2302, col: 5, offset: 74650},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2302, col: 5, offset: 74606},
+					pos: position{line: 2302, col: 5, offset: 74650},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2302, col: 5, offset: 74606},
+							pos: position{line: 2302, col: 5, offset: 74650},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2305, col: 5, offset: 74669},
+							pos:   position{line: 2305, col: 5, offset: 74713},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2305, col: 12, offset: 74676},
+								pos: position{line: 2305, col: 12, offset: 74720},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2305, col: 12, offset: 74676},
+									pos: position{line: 2305, col: 12, offset: 74720},
 									expr: &litMatcher{
-										pos:        position{line: 2305, col: 13, offset: 74677},
+										pos:        position{line: 2305, col: 13, offset: 74721},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42883,16 +42883,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74785},
+							pos: position{line: 2309, col: 5, offset: 74829},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2879, col: 11, offset: 90995},
+							pos: position{line: 2879, col: 11, offset: 91039},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2879, col: 11, offset: 90995},
+								pos: position{line: 2879, col: 11, offset: 91039},
 								expr: &charClassMatcher{
-									pos:        position{line: 2879, col: 11, offset: 90995},
+									pos:        position{line: 2879, col: 11, offset: 91039},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42901,36 +42901,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2313, col: 12, offset: 74944},
+							pos:   position{line: 2313, col: 12, offset: 74988},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2313, col: 19, offset: 74951},
+								pos:  position{line: 2313, col: 19, offset: 74995},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42939,9 +42939,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -42952,24 +42952,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2317, col: 1, offset: 75047},
+			pos:  position{line: 2317, col: 1, offset: 75091},
 			expr: &actionExpr{
-				pos: position{line: 2318, col: 5, offset: 75068},
+				pos: position{line: 2318, col: 5, offset: 75112},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2318, col: 5, offset: 75068},
+					pos: position{line: 2318, col: 5, offset: 75112},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2318, col: 5, offset: 75068},
+							pos: position{line: 2318, col: 5, offset: 75112},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2323, col: 5, offset: 75183},
+							pos:   position{line: 2323, col: 5, offset: 75227},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2323, col: 14, offset: 75192},
+								pos: position{line: 2323, col: 14, offset: 75236},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2323, col: 15, offset: 75193},
+									pos:  position{line: 2323, col: 15, offset: 75237},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42980,38 +42980,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2327, col: 1, offset: 75274},
+			pos:  position{line: 2327, col: 1, offset: 75318},
 			expr: &actionExpr{
-				pos: position{line: 2328, col: 5, offset: 75301},
+				pos: position{line: 2328, col: 5, offset: 75345},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2328, col: 5, offset: 75301},
+					pos: position{line: 2328, col: 5, offset: 75345},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2328, col: 5, offset: 75301},
+							pos: position{line: 2328, col: 5, offset: 75345},
 							expr: &choiceExpr{
-								pos: position{line: 2897, col: 8, offset: 91332},
+								pos: position{line: 2897, col: 8, offset: 91376},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2884, col: 12, offset: 91105},
+										pos: position{line: 2884, col: 12, offset: 91149},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2884, col: 13, offset: 91106},
+											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2884, col: 13, offset: 91106},
+													pos:        position{line: 2884, col: 13, offset: 91150},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 20, offset: 91113},
+													pos:        position{line: 2884, col: 20, offset: 91157},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 29, offset: 91122},
+													pos:        position{line: 2884, col: 29, offset: 91166},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43020,36 +43020,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2894, col: 8, offset: 91282},
+										pos: position{line: 2894, col: 8, offset: 91326},
 										expr: &anyMatcher{
-											line: 2894, col: 9, offset: 91283,
+											line: 2894, col: 9, offset: 91327,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2329, col: 5, offset: 75310},
+							pos:   position{line: 2329, col: 5, offset: 75354},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2330, col: 9, offset: 75328},
+								pos: position{line: 2330, col: 9, offset: 75372},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2774, col: 5, offset: 88176},
+										pos: position{line: 2774, col: 5, offset: 88220},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2774, col: 5, offset: 88176},
+											pos: position{line: 2774, col: 5, offset: 88220},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2774, col: 5, offset: 88176},
+													pos:   position{line: 2774, col: 5, offset: 88220},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2774, col: 11, offset: 88182},
+														pos: position{line: 2774, col: 11, offset: 88226},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2774, col: 11, offset: 88182},
+															pos: position{line: 2774, col: 11, offset: 88226},
 															expr: &charClassMatcher{
-																pos:        position{line: 2774, col: 11, offset: 88182},
+																pos:        position{line: 2774, col: 11, offset: 88226},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43059,36 +43059,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2777, col: 5, offset: 88240},
+													pos: position{line: 2777, col: 5, offset: 88284},
 													expr: &seqExpr{
-														pos: position{line: 2778, col: 9, offset: 88251},
+														pos: position{line: 2778, col: 9, offset: 88295},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2778, col: 9, offset: 88251},
+																pos:        position{line: 2778, col: 9, offset: 88295},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2779, col: 9, offset: 88300},
+																pos: position{line: 2779, col: 9, offset: 88344},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2783, col: 5, offset: 88380},
+													pos: position{line: 2783, col: 5, offset: 88424},
 													expr: &seqExpr{
-														pos: position{line: 2784, col: 9, offset: 88391},
+														pos: position{line: 2784, col: 9, offset: 88435},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2784, col: 9, offset: 88391},
+																pos:        position{line: 2784, col: 9, offset: 88435},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2784, col: 13, offset: 88395},
+																pos:        position{line: 2784, col: 13, offset: 88439},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43101,12 +43101,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2879, col: 11, offset: 90995},
+										pos: position{line: 2879, col: 11, offset: 91039},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2879, col: 11, offset: 90995},
+											pos: position{line: 2879, col: 11, offset: 91039},
 											expr: &charClassMatcher{
-												pos:        position{line: 2879, col: 11, offset: 90995},
+												pos:        position{line: 2879, col: 11, offset: 91039},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43115,25 +43115,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80565},
+										pos: position{line: 2500, col: 5, offset: 80609},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80565},
+											pos: position{line: 2500, col: 5, offset: 80609},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80565},
+													pos: position{line: 2500, col: 5, offset: 80609},
 													run: (*parser).callonSectionTitleElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2503, col: 5, offset: 80636},
+													pos:        position{line: 2503, col: 5, offset: 80680},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2503, col: 10, offset: 80641},
+													pos: position{line: 2503, col: 10, offset: 80685},
 													expr: &charClassMatcher{
-														pos:        position{line: 2503, col: 11, offset: 80642},
+														pos:        position{line: 2503, col: 11, offset: 80686},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43144,29 +43144,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2509, col: 5, offset: 80834},
+										pos: position{line: 2509, col: 5, offset: 80878},
 										run: (*parser).callonSectionTitleElement37,
 										expr: &seqExpr{
-											pos: position{line: 2509, col: 5, offset: 80834},
+											pos: position{line: 2509, col: 5, offset: 80878},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2509, col: 5, offset: 80834},
+													pos: position{line: 2509, col: 5, offset: 80878},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80905},
+													pos: position{line: 2512, col: 5, offset: 80949},
 													run: (*parser).callonSectionTitleElement40,
 												},
 												&litMatcher{
-													pos:        position{line: 2516, col: 5, offset: 81030},
+													pos:        position{line: 2516, col: 5, offset: 81074},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2516, col: 9, offset: 81034},
+													pos: position{line: 2516, col: 9, offset: 81078},
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 81035},
+														pos:        position{line: 2516, col: 10, offset: 81079},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43177,31 +43177,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75393},
+										pos:  position{line: 2333, col: 11, offset: 75437},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2792, col: 5, offset: 88588},
+										pos: position{line: 2792, col: 5, offset: 88632},
 										run: (*parser).callonSectionTitleElement45,
 										expr: &choiceExpr{
-											pos: position{line: 2793, col: 9, offset: 88598},
+											pos: position{line: 2793, col: 9, offset: 88642},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2793, col: 10, offset: 88599},
+													pos:        position{line: 2793, col: 10, offset: 88643},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 13, offset: 88696},
+													pos: position{line: 2795, col: 13, offset: 88740},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2795, col: 13, offset: 88696},
+															pos: position{line: 2795, col: 13, offset: 88740},
 															run: (*parser).callonSectionTitleElement49,
 														},
 														&litMatcher{
-															pos:        position{line: 2798, col: 13, offset: 88796},
+															pos:        position{line: 2798, col: 13, offset: 88840},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43209,20 +43209,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2798, col: 19, offset: 88802},
+													pos:        position{line: 2798, col: 19, offset: 88846},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 13, offset: 88840},
+													pos: position{line: 2801, col: 13, offset: 88884},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2801, col: 13, offset: 88840},
+															pos: position{line: 2801, col: 13, offset: 88884},
 															run: (*parser).callonSectionTitleElement53,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2804, col: 14, offset: 88933},
+															pos:        position{line: 2804, col: 14, offset: 88977},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43231,18 +43231,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 12, offset: 88977},
+													pos: position{line: 2806, col: 12, offset: 89021},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2806, col: 12, offset: 88977},
+															pos:        position{line: 2806, col: 12, offset: 89021},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2806, col: 16, offset: 88981},
+															pos: position{line: 2806, col: 16, offset: 89025},
 															expr: &litMatcher{
-																pos:        position{line: 2806, col: 17, offset: 88982},
+																pos:        position{line: 2806, col: 17, offset: 89026},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43254,35 +43254,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75466},
+										pos:  position{line: 2335, col: 11, offset: 75510},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75482},
+										pos:  position{line: 2336, col: 11, offset: 75526},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75510},
+										pos:  position{line: 2337, col: 11, offset: 75554},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2469, col: 5, offset: 79394},
+										pos: position{line: 2469, col: 5, offset: 79438},
 										run: (*parser).callonSectionTitleElement62,
 										expr: &seqExpr{
-											pos: position{line: 2469, col: 5, offset: 79394},
+											pos: position{line: 2469, col: 5, offset: 79438},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2469, col: 5, offset: 79394},
+													pos: position{line: 2469, col: 5, offset: 79438},
 													run: (*parser).callonSectionTitleElement64,
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 5, offset: 79470},
+													pos:   position{line: 2472, col: 5, offset: 79514},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2473, col: 9, offset: 79488},
+														pos: position{line: 2473, col: 9, offset: 79532},
 														run: (*parser).callonSectionTitleElement66,
 														expr: &charClassMatcher{
-															pos:        position{line: 2473, col: 10, offset: 79489},
+															pos:        position{line: 2473, col: 10, offset: 79533},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43294,48 +43294,48 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2339, col: 11, offset: 75595},
+										pos:  position{line: 2339, col: 11, offset: 75639},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20153},
 										run: (*parser).callonSectionTitleElement69,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20153},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20153},
 													run: (*parser).callonSectionTitleElement71,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20225},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20234},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20363},
 																run: (*parser).callonSectionTitleElement74,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20363},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20363},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20371},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonSectionTitleElement78,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43343,9 +43343,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43358,7 +43358,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20390},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43367,28 +43367,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20631},
 																run: (*parser).callonSectionTitleElement84,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20631},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20631},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20635},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonSectionTitleElement88,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43396,9 +43396,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43411,7 +43411,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20654},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43420,28 +43420,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20835},
 																run: (*parser).callonSectionTitleElement94,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20835},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20835},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20847},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonSectionTitleElement98,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43449,9 +43449,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43464,33 +43464,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20866},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20872},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					run: (*parser).callonSectionTitleElement105,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21171},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21178},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21178},
 																											run: (*parser).callonSectionTitleElement110,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43498,12 +43498,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											run: (*parser).callonSectionTitleElement112,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21232},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43520,7 +43520,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20888},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43529,28 +43529,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21006},
 																run: (*parser).callonSectionTitleElement116,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21006},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 21006},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 21019},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9780},
 																				run: (*parser).callonSectionTitleElement120,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9780},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43558,9 +43558,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9791},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43573,33 +43573,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21038},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21044},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21167},
 																					run: (*parser).callonSectionTitleElement127,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21171},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21178},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21178},
 																											run: (*parser).callonSectionTitleElement132,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43607,12 +43607,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21232},
 																											run: (*parser).callonSectionTitleElement134,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21232},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43629,7 +43629,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21060},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43644,27 +43644,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1198, col: 23, offset: 37016},
 										run: (*parser).callonSectionTitleElement138,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 37016},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36984},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1198, col: 51, offset: 37044},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1198, col: 56, offset: 37049},
 														run: (*parser).callonSectionTitleElement142,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37049},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1198, col: 56, offset: 37049},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43674,7 +43674,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36984},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43683,51 +43683,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2352, col: 5, offset: 76048},
+										pos: position{line: 2352, col: 5, offset: 76092},
 										run: (*parser).callonSectionTitleElement146,
 										expr: &seqExpr{
-											pos: position{line: 2352, col: 5, offset: 76048},
+											pos: position{line: 2352, col: 5, offset: 76092},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2352, col: 5, offset: 76048},
+													pos: position{line: 2352, col: 5, offset: 76092},
 													run: (*parser).callonSectionTitleElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2355, col: 5, offset: 76103},
+													pos:   position{line: 2355, col: 5, offset: 76147},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 404, col: 5, offset: 12381},
 														run: (*parser).callonSectionTitleElement150,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12337},
+															pos: position{line: 404, col: 5, offset: 12381},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12337},
+																	pos:        position{line: 404, col: 5, offset: 12381},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12347},
+																	pos:   position{line: 405, col: 5, offset: 12391},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12360},
+																		pos: position{line: 406, col: 9, offset: 12404},
 																		run: (*parser).callonSectionTitleElement154,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12360},
+																			pos:   position{line: 406, col: 9, offset: 12404},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12369},
+																				pos: position{line: 406, col: 18, offset: 12413},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12383},
+																					pos: position{line: 407, col: 13, offset: 12427},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 407, col: 14, offset: 12428},
 																							run: (*parser).callonSectionTitleElement158,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12384},
+																								pos: position{line: 407, col: 14, offset: 12428},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12384},
+																									pos:        position{line: 407, col: 14, offset: 12428},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -43736,27 +43736,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1198, col: 23, offset: 37016},
 																							run: (*parser).callonSectionTitleElement161,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 36972},
+																								pos: position{line: 1198, col: 23, offset: 37016},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1196, col: 32, offset: 36984},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37000},
+																										pos:   position{line: 1198, col: 51, offset: 37044},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1198, col: 56, offset: 37049},
 																											run: (*parser).callonSectionTitleElement165,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37005},
+																												pos: position{line: 1198, col: 56, offset: 37049},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37005},
+																													pos:        position{line: 1198, col: 56, offset: 37049},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43766,7 +43766,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1196, col: 32, offset: 36984},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43775,44 +43775,44 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 636, col: 5, offset: 20153},
 																							run: (*parser).callonSectionTitleElement169,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20109},
+																								pos: position{line: 636, col: 5, offset: 20153},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20109},
+																										pos: position{line: 636, col: 5, offset: 20153},
 																										run: (*parser).callonSectionTitleElement171,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20181},
+																										pos:   position{line: 639, col: 5, offset: 20225},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20190},
+																											pos: position{line: 639, col: 14, offset: 20234},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 645, col: 5, offset: 20363},
 																													run: (*parser).callonSectionTitleElement174,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20319},
+																														pos: position{line: 645, col: 5, offset: 20363},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20319},
+																																pos:        position{line: 645, col: 5, offset: 20363},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20327},
+																																pos:   position{line: 645, col: 13, offset: 20371},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	run: (*parser).callonSectionTitleElement178,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9780},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43820,9 +43820,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9791},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43835,7 +43835,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20346},
+																																pos:        position{line: 645, col: 32, offset: 20390},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43844,28 +43844,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 652, col: 5, offset: 20631},
 																													run: (*parser).callonSectionTitleElement184,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20587},
+																														pos: position{line: 652, col: 5, offset: 20631},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20587},
+																																pos:        position{line: 652, col: 5, offset: 20631},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20591},
+																																pos:   position{line: 652, col: 9, offset: 20635},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	run: (*parser).callonSectionTitleElement188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9780},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43873,9 +43873,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9791},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43888,7 +43888,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20610},
+																																pos:        position{line: 652, col: 28, offset: 20654},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43897,28 +43897,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 658, col: 25, offset: 20835},
 																													run: (*parser).callonSectionTitleElement194,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20791},
+																														pos: position{line: 658, col: 25, offset: 20835},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20791},
+																																pos:        position{line: 658, col: 25, offset: 20835},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20803},
+																																pos:   position{line: 658, col: 37, offset: 20847},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	run: (*parser).callonSectionTitleElement198,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9780},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43926,9 +43926,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9791},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43941,33 +43941,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20822},
+																																pos:   position{line: 658, col: 56, offset: 20866},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20828},
+																																	pos: position{line: 658, col: 62, offset: 20872},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21167},
 																																		run: (*parser).callonSectionTitleElement205,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 666, col: 17, offset: 21167},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 666, col: 17, offset: 21167},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 666, col: 21, offset: 21171},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 666, col: 28, offset: 21178},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 666, col: 28, offset: 21178},
 																																								run: (*parser).callonSectionTitleElement210,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 666, col: 28, offset: 21178},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -43975,12 +43975,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21232},
 																																								run: (*parser).callonSectionTitleElement212,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 668, col: 9, offset: 21232},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 668, col: 9, offset: 21232},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -43997,7 +43997,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20844},
+																																pos:        position{line: 658, col: 78, offset: 20888},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44006,28 +44006,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 662, col: 25, offset: 21006},
 																													run: (*parser).callonSectionTitleElement216,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 20962},
+																														pos: position{line: 662, col: 25, offset: 21006},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 20962},
+																																pos:        position{line: 662, col: 25, offset: 21006},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 20975},
+																																pos:   position{line: 662, col: 38, offset: 21019},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	run: (*parser).callonSectionTitleElement220,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9780},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44035,9 +44035,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9791},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44050,33 +44050,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 20994},
+																																pos:   position{line: 662, col: 57, offset: 21038},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21000},
+																																	pos: position{line: 662, col: 63, offset: 21044},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21167},
 																																		run: (*parser).callonSectionTitleElement227,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 666, col: 17, offset: 21167},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 666, col: 17, offset: 21167},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 666, col: 21, offset: 21171},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 666, col: 28, offset: 21178},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 666, col: 28, offset: 21178},
 																																								run: (*parser).callonSectionTitleElement232,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 666, col: 28, offset: 21178},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44084,12 +44084,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21232},
 																																								run: (*parser).callonSectionTitleElement234,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 668, col: 9, offset: 21232},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 668, col: 9, offset: 21232},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44106,7 +44106,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21016},
+																																pos:        position{line: 662, col: 79, offset: 21060},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44121,10 +44121,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12617},
+																							pos: position{line: 412, col: 16, offset: 12661},
 																							run: (*parser).callonSectionTitleElement238,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12617},
+																								pos:        position{line: 412, col: 16, offset: 12661},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -44137,7 +44137,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12803},
+																	pos:        position{line: 418, col: 5, offset: 12847},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44147,12 +44147,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2355, col: 26, offset: 76124},
+													pos: position{line: 2355, col: 26, offset: 76168},
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 10, offset: 90934},
+														pos: position{line: 2875, col: 10, offset: 90978},
 														run: (*parser).callonSectionTitleElement242,
 														expr: &charClassMatcher{
-															pos:        position{line: 2875, col: 10, offset: 90934},
+															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44161,30 +44161,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2355, col: 33, offset: 76131},
+													pos: position{line: 2355, col: 33, offset: 76175},
 													expr: &choiceExpr{
-														pos: position{line: 2897, col: 8, offset: 91332},
+														pos: position{line: 2897, col: 8, offset: 91376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91105},
+																pos: position{line: 2884, col: 12, offset: 91149},
 																run: (*parser).callonSectionTitleElement246,
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91106},
+																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91106},
+																			pos:        position{line: 2884, col: 13, offset: 91150},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91113},
+																			pos:        position{line: 2884, col: 20, offset: 91157},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91122},
+																			pos:        position{line: 2884, col: 29, offset: 91166},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44193,9 +44193,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2894, col: 8, offset: 91282},
+																pos: position{line: 2894, col: 8, offset: 91326},
 																expr: &anyMatcher{
-																	line: 2894, col: 9, offset: 91283,
+																	line: 2894, col: 9, offset: 91327,
 																},
 															},
 														},
@@ -44205,27 +44205,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1253, col: 5, offset: 38776},
 										run: (*parser).callonSectionTitleElement253,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1253, col: 5, offset: 38776},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1253, col: 5, offset: 38776},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1253, col: 14, offset: 38785},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 7, offset: 90586},
+														pos: position{line: 2860, col: 7, offset: 90630},
 														run: (*parser).callonSectionTitleElement257,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2860, col: 7, offset: 90586},
+															pos: position{line: 2860, col: 7, offset: 90630},
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 7, offset: 90586},
+																pos:        position{line: 2860, col: 7, offset: 90630},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44235,7 +44235,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1253, col: 22, offset: 38793},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44244,27 +44244,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1258, col: 5, offset: 38912},
 										run: (*parser).callonSectionTitleElement261,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1258, col: 5, offset: 38912},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1258, col: 5, offset: 38912},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1258, col: 10, offset: 38917},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 7, offset: 90586},
+														pos: position{line: 2860, col: 7, offset: 90630},
 														run: (*parser).callonSectionTitleElement265,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2860, col: 7, offset: 90586},
+															pos: position{line: 2860, col: 7, offset: 90630},
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 7, offset: 90586},
+																pos:        position{line: 2860, col: 7, offset: 90630},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44274,7 +44274,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1258, col: 18, offset: 38925},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44283,14 +44283,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2344, col: 11, offset: 75849},
+										pos:  position{line: 2344, col: 11, offset: 75893},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2814, col: 12, offset: 89242},
+										pos: position{line: 2814, col: 12, offset: 89286},
 										run: (*parser).callonSectionTitleElement270,
 										expr: &charClassMatcher{
-											pos:        position{line: 2814, col: 12, offset: 89242},
+											pos:        position{line: 2814, col: 12, offset: 89286},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44306,52 +44306,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2365, col: 1, offset: 76393},
+			pos:  position{line: 2365, col: 1, offset: 76437},
 			expr: &actionExpr{
-				pos: position{line: 2366, col: 5, offset: 76480},
+				pos: position{line: 2366, col: 5, offset: 76524},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2366, col: 5, offset: 76480},
+					pos: position{line: 2366, col: 5, offset: 76524},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76480},
+							pos:   position{line: 2366, col: 5, offset: 76524},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76489},
+								pos: position{line: 2366, col: 14, offset: 76533},
 								expr: &actionExpr{
-									pos: position{line: 2368, col: 9, offset: 76515},
+									pos: position{line: 2368, col: 9, offset: 76559},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2368, col: 9, offset: 76515},
+										pos: position{line: 2368, col: 9, offset: 76559},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2892, col: 11, offset: 91268},
+												pos: position{line: 2892, col: 11, offset: 91312},
 												expr: &anyMatcher{
-													line: 2892, col: 13, offset: 91270,
+													line: 2892, col: 13, offset: 91314,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2369, col: 9, offset: 76530},
+												pos:   position{line: 2369, col: 9, offset: 76574},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2370, col: 13, offset: 76552},
+													pos: position{line: 2370, col: 13, offset: 76596},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2774, col: 5, offset: 88176},
+															pos: position{line: 2774, col: 5, offset: 88220},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2774, col: 5, offset: 88176},
+																pos: position{line: 2774, col: 5, offset: 88220},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2774, col: 5, offset: 88176},
+																		pos:   position{line: 2774, col: 5, offset: 88220},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2774, col: 11, offset: 88182},
+																			pos: position{line: 2774, col: 11, offset: 88226},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2774, col: 11, offset: 88182},
+																				pos: position{line: 2774, col: 11, offset: 88226},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2774, col: 11, offset: 88182},
+																					pos:        position{line: 2774, col: 11, offset: 88226},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44361,36 +44361,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2777, col: 5, offset: 88240},
+																		pos: position{line: 2777, col: 5, offset: 88284},
 																		expr: &seqExpr{
-																			pos: position{line: 2778, col: 9, offset: 88251},
+																			pos: position{line: 2778, col: 9, offset: 88295},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2778, col: 9, offset: 88251},
+																					pos:        position{line: 2778, col: 9, offset: 88295},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2779, col: 9, offset: 88300},
+																					pos: position{line: 2779, col: 9, offset: 88344},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2783, col: 5, offset: 88380},
+																		pos: position{line: 2783, col: 5, offset: 88424},
 																		expr: &seqExpr{
-																			pos: position{line: 2784, col: 9, offset: 88391},
+																			pos: position{line: 2784, col: 9, offset: 88435},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2784, col: 9, offset: 88391},
+																					pos:        position{line: 2784, col: 9, offset: 88435},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2784, col: 13, offset: 88395},
+																					pos:        position{line: 2784, col: 13, offset: 88439},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44403,12 +44403,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2879, col: 11, offset: 90995},
+															pos: position{line: 2879, col: 11, offset: 91039},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2879, col: 11, offset: 90995},
+																pos: position{line: 2879, col: 11, offset: 91039},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2879, col: 11, offset: 90995},
+																	pos:        position{line: 2879, col: 11, offset: 91039},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44417,29 +44417,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2372, col: 15, offset: 76598},
+															pos:  position{line: 2372, col: 15, offset: 76642},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2500, col: 5, offset: 80565},
+															pos: position{line: 2500, col: 5, offset: 80609},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2500, col: 5, offset: 80565},
+																pos: position{line: 2500, col: 5, offset: 80609},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2500, col: 5, offset: 80565},
+																		pos: position{line: 2500, col: 5, offset: 80609},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2503, col: 5, offset: 80636},
+																		pos:        position{line: 2503, col: 5, offset: 80680},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2503, col: 10, offset: 80641},
+																		pos: position{line: 2503, col: 10, offset: 80685},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2503, col: 11, offset: 80642},
+																			pos:        position{line: 2503, col: 11, offset: 80686},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44450,29 +44450,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2509, col: 5, offset: 80834},
+															pos: position{line: 2509, col: 5, offset: 80878},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2509, col: 5, offset: 80834},
+																pos: position{line: 2509, col: 5, offset: 80878},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2509, col: 5, offset: 80834},
+																		pos: position{line: 2509, col: 5, offset: 80878},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80905},
+																		pos: position{line: 2512, col: 5, offset: 80949},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2516, col: 5, offset: 81030},
+																		pos:        position{line: 2516, col: 5, offset: 81074},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2516, col: 9, offset: 81034},
+																		pos: position{line: 2516, col: 9, offset: 81078},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2516, col: 10, offset: 81035},
+																			pos:        position{line: 2516, col: 10, offset: 81079},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44483,27 +44483,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2792, col: 5, offset: 88588},
+															pos: position{line: 2792, col: 5, offset: 88632},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2793, col: 9, offset: 88598},
+																pos: position{line: 2793, col: 9, offset: 88642},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2793, col: 10, offset: 88599},
+																		pos:        position{line: 2793, col: 10, offset: 88643},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2795, col: 13, offset: 88696},
+																		pos: position{line: 2795, col: 13, offset: 88740},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2795, col: 13, offset: 88696},
+																				pos: position{line: 2795, col: 13, offset: 88740},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2798, col: 13, offset: 88796},
+																				pos:        position{line: 2798, col: 13, offset: 88840},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44511,20 +44511,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2798, col: 19, offset: 88802},
+																		pos:        position{line: 2798, col: 19, offset: 88846},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2801, col: 13, offset: 88840},
+																		pos: position{line: 2801, col: 13, offset: 88884},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2801, col: 13, offset: 88840},
+																				pos: position{line: 2801, col: 13, offset: 88884},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2804, col: 14, offset: 88933},
+																				pos:        position{line: 2804, col: 14, offset: 88977},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44533,18 +44533,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2806, col: 12, offset: 88977},
+																		pos: position{line: 2806, col: 12, offset: 89021},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2806, col: 12, offset: 88977},
+																				pos:        position{line: 2806, col: 12, offset: 89021},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2806, col: 16, offset: 88981},
+																				pos: position{line: 2806, col: 16, offset: 89025},
 																				expr: &litMatcher{
-																					pos:        position{line: 2806, col: 17, offset: 88982},
+																					pos:        position{line: 2806, col: 17, offset: 89026},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44556,25 +44556,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91105},
+															pos: position{line: 2884, col: 12, offset: 91149},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91106},
+																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91106},
+																		pos:        position{line: 2884, col: 13, offset: 91150},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91113},
+																		pos:        position{line: 2884, col: 20, offset: 91157},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91122},
+																		pos:        position{line: 2884, col: 29, offset: 91166},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44583,44 +44583,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 636, col: 5, offset: 20153},
 															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20153},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20153},
 																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 639, col: 5, offset: 20225},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 639, col: 14, offset: 20234},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20363},
 																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20363},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 645, col: 5, offset: 20363},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 645, col: 13, offset: 20371},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonNormalGroup70,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44628,9 +44628,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44643,7 +44643,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 645, col: 32, offset: 20390},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44652,28 +44652,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20631},
 																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20631},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 652, col: 5, offset: 20631},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 652, col: 9, offset: 20635},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonNormalGroup80,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44681,9 +44681,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44696,7 +44696,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 652, col: 28, offset: 20654},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44705,28 +44705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 658, col: 25, offset: 20835},
 																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 658, col: 25, offset: 20835},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 658, col: 25, offset: 20835},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 658, col: 37, offset: 20847},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonNormalGroup90,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44734,9 +44734,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44749,33 +44749,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 658, col: 56, offset: 20866},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 658, col: 62, offset: 20872},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21167},
 																										run: (*parser).callonNormalGroup97,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21167},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21167},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21171},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21178},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																run: (*parser).callonNormalGroup102,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21178},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44783,12 +44783,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21232},
 																																run: (*parser).callonNormalGroup104,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21232},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21232},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44805,7 +44805,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 658, col: 78, offset: 20888},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44814,28 +44814,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 662, col: 25, offset: 21006},
 																					run: (*parser).callonNormalGroup108,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 662, col: 25, offset: 21006},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 662, col: 25, offset: 21006},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 662, col: 38, offset: 21019},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9780},
 																									run: (*parser).callonNormalGroup112,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9780},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44843,9 +44843,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9791},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44858,33 +44858,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 662, col: 57, offset: 21038},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 662, col: 63, offset: 21044},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21167},
 																										run: (*parser).callonNormalGroup119,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21167},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21167},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21171},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21178},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21178},
 																																run: (*parser).callonNormalGroup124,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21178},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44892,12 +44892,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21232},
 																																run: (*parser).callonNormalGroup126,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21232},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21232},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44914,7 +44914,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 662, col: 79, offset: 21060},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44929,39 +44929,39 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2377, col: 15, offset: 76765},
+															pos:  position{line: 2377, col: 15, offset: 76809},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76785},
+															pos:  position{line: 2378, col: 15, offset: 76829},
 															name: "InlinePassthrough",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76873},
+															pos:  position{line: 2379, col: 15, offset: 76917},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76962},
+															pos:  position{line: 2380, col: 15, offset: 77006},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2469, col: 5, offset: 79394},
+															pos: position{line: 2469, col: 5, offset: 79438},
 															run: (*parser).callonNormalGroup134,
 															expr: &seqExpr{
-																pos: position{line: 2469, col: 5, offset: 79394},
+																pos: position{line: 2469, col: 5, offset: 79438},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2469, col: 5, offset: 79394},
+																		pos: position{line: 2469, col: 5, offset: 79438},
 																		run: (*parser).callonNormalGroup136,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2472, col: 5, offset: 79470},
+																		pos:   position{line: 2472, col: 5, offset: 79514},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2473, col: 9, offset: 79488},
+																			pos: position{line: 2473, col: 9, offset: 79532},
 																			run: (*parser).callonNormalGroup138,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2473, col: 10, offset: 79489},
+																				pos:        position{line: 2473, col: 10, offset: 79533},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44973,32 +44973,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37418},
+															pos: position{line: 1206, col: 5, offset: 37462},
 															run: (*parser).callonNormalGroup140,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37418},
+																pos: position{line: 1206, col: 5, offset: 37462},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37418},
+																		pos: position{line: 1206, col: 5, offset: 37462},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37494},
+																		pos:        position{line: 1209, col: 5, offset: 37538},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37502},
+																		pos: position{line: 1210, col: 5, offset: 37546},
 																		run: (*parser).callonNormalGroup144,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37589},
+																		pos: position{line: 1214, col: 5, offset: 37633},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonNormalGroup146,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45007,30 +45007,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37596},
+																		pos: position{line: 1214, col: 12, offset: 37640},
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91332},
+																			pos: position{line: 2897, col: 8, offset: 91376},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonNormalGroup150,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45039,9 +45039,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91282},
+																					pos: position{line: 2894, col: 8, offset: 91326},
 																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91283,
+																						line: 2894, col: 9, offset: 91327,
 																					},
 																				},
 																			},
@@ -45051,27 +45051,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1198, col: 23, offset: 37016},
 															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1198, col: 23, offset: 37016},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36984},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1198, col: 51, offset: 37044},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1198, col: 56, offset: 37049},
 																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1198, col: 56, offset: 37049},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1198, col: 56, offset: 37049},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45081,7 +45081,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36984},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45090,10 +45090,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2814, col: 12, offset: 89242},
+															pos: position{line: 2814, col: 12, offset: 89286},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 12, offset: 89242},
+																pos:        position{line: 2814, col: 12, offset: 89286},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45109,9 +45109,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -45120,28 +45120,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2393, col: 1, offset: 77550},
+			pos:  position{line: 2393, col: 1, offset: 77594},
 			expr: &actionExpr{
-				pos: position{line: 2394, col: 5, offset: 77583},
+				pos: position{line: 2394, col: 5, offset: 77627},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2394, col: 5, offset: 77583},
+					pos: position{line: 2394, col: 5, offset: 77627},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2394, col: 5, offset: 77583},
+							pos:   position{line: 2394, col: 5, offset: 77627},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2394, col: 14, offset: 77592},
+								pos: position{line: 2394, col: 14, offset: 77636},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2394, col: 15, offset: 77593},
+									pos:  position{line: 2394, col: 15, offset: 77637},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -45150,41 +45150,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2398, col: 1, offset: 77690},
+			pos:  position{line: 2398, col: 1, offset: 77734},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77730},
+				pos: position{line: 2399, col: 5, offset: 77774},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77730},
+					pos: position{line: 2399, col: 5, offset: 77774},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2892, col: 11, offset: 91268},
+							pos: position{line: 2892, col: 11, offset: 91312},
 							expr: &anyMatcher{
-								line: 2892, col: 13, offset: 91270,
+								line: 2892, col: 13, offset: 91314,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2400, col: 5, offset: 77741},
+							pos:   position{line: 2400, col: 5, offset: 77785},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2401, col: 9, offset: 77759},
+								pos: position{line: 2401, col: 9, offset: 77803},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2774, col: 5, offset: 88176},
+										pos: position{line: 2774, col: 5, offset: 88220},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2774, col: 5, offset: 88176},
+											pos: position{line: 2774, col: 5, offset: 88220},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2774, col: 5, offset: 88176},
+													pos:   position{line: 2774, col: 5, offset: 88220},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2774, col: 11, offset: 88182},
+														pos: position{line: 2774, col: 11, offset: 88226},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2774, col: 11, offset: 88182},
+															pos: position{line: 2774, col: 11, offset: 88226},
 															expr: &charClassMatcher{
-																pos:        position{line: 2774, col: 11, offset: 88182},
+																pos:        position{line: 2774, col: 11, offset: 88226},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45194,36 +45194,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2777, col: 5, offset: 88240},
+													pos: position{line: 2777, col: 5, offset: 88284},
 													expr: &seqExpr{
-														pos: position{line: 2778, col: 9, offset: 88251},
+														pos: position{line: 2778, col: 9, offset: 88295},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2778, col: 9, offset: 88251},
+																pos:        position{line: 2778, col: 9, offset: 88295},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2779, col: 9, offset: 88300},
+																pos: position{line: 2779, col: 9, offset: 88344},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2783, col: 5, offset: 88380},
+													pos: position{line: 2783, col: 5, offset: 88424},
 													expr: &seqExpr{
-														pos: position{line: 2784, col: 9, offset: 88391},
+														pos: position{line: 2784, col: 9, offset: 88435},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2784, col: 9, offset: 88391},
+																pos:        position{line: 2784, col: 9, offset: 88435},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2784, col: 13, offset: 88395},
+																pos:        position{line: 2784, col: 13, offset: 88439},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45236,10 +45236,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 10, offset: 90934},
+										pos: position{line: 2875, col: 10, offset: 90978},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 10, offset: 90934},
+											pos:        position{line: 2875, col: 10, offset: 90978},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45247,31 +45247,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 11, offset: 77797},
+										pos:  position{line: 2403, col: 11, offset: 77841},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2792, col: 5, offset: 88588},
+										pos: position{line: 2792, col: 5, offset: 88632},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2793, col: 9, offset: 88598},
+											pos: position{line: 2793, col: 9, offset: 88642},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2793, col: 10, offset: 88599},
+													pos:        position{line: 2793, col: 10, offset: 88643},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 13, offset: 88696},
+													pos: position{line: 2795, col: 13, offset: 88740},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2795, col: 13, offset: 88696},
+															pos: position{line: 2795, col: 13, offset: 88740},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2798, col: 13, offset: 88796},
+															pos:        position{line: 2798, col: 13, offset: 88840},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45279,20 +45279,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2798, col: 19, offset: 88802},
+													pos:        position{line: 2798, col: 19, offset: 88846},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 13, offset: 88840},
+													pos: position{line: 2801, col: 13, offset: 88884},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2801, col: 13, offset: 88840},
+															pos: position{line: 2801, col: 13, offset: 88884},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2804, col: 14, offset: 88933},
+															pos:        position{line: 2804, col: 14, offset: 88977},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45301,18 +45301,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 12, offset: 88977},
+													pos: position{line: 2806, col: 12, offset: 89021},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2806, col: 12, offset: 88977},
+															pos:        position{line: 2806, col: 12, offset: 89021},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2806, col: 16, offset: 88981},
+															pos: position{line: 2806, col: 16, offset: 89025},
 															expr: &litMatcher{
-																pos:        position{line: 2806, col: 17, offset: 88982},
+																pos:        position{line: 2806, col: 17, offset: 89026},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45324,31 +45324,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77870},
+										pos:  position{line: 2405, col: 11, offset: 77914},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77886},
+										pos:  position{line: 2406, col: 11, offset: 77930},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2469, col: 5, offset: 79394},
+										pos: position{line: 2469, col: 5, offset: 79438},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2469, col: 5, offset: 79394},
+											pos: position{line: 2469, col: 5, offset: 79438},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2469, col: 5, offset: 79394},
+													pos: position{line: 2469, col: 5, offset: 79438},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 5, offset: 79470},
+													pos:   position{line: 2472, col: 5, offset: 79514},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2473, col: 9, offset: 79488},
+														pos: position{line: 2473, col: 9, offset: 79532},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2473, col: 10, offset: 79489},
+															pos:        position{line: 2473, col: 10, offset: 79533},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45360,27 +45360,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1198, col: 23, offset: 37016},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 37016},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36984},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1198, col: 51, offset: 37044},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1198, col: 56, offset: 37049},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37049},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1198, col: 56, offset: 37049},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45390,7 +45390,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36984},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45399,25 +45399,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2884, col: 12, offset: 91105},
+										pos: position{line: 2884, col: 12, offset: 91149},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2884, col: 13, offset: 91106},
+											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2884, col: 13, offset: 91106},
+													pos:        position{line: 2884, col: 13, offset: 91150},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 20, offset: 91113},
+													pos:        position{line: 2884, col: 20, offset: 91157},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2884, col: 29, offset: 91122},
+													pos:        position{line: 2884, col: 29, offset: 91166},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45426,10 +45426,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2814, col: 12, offset: 89242},
+										pos: position{line: 2814, col: 12, offset: 89286},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2814, col: 12, offset: 89242},
+											pos:        position{line: 2814, col: 12, offset: 89286},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45445,73 +45445,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2417, col: 1, offset: 78156},
+			pos:  position{line: 2417, col: 1, offset: 78200},
 			expr: &actionExpr{
-				pos: position{line: 2419, col: 5, offset: 78238},
+				pos: position{line: 2419, col: 5, offset: 78282},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2419, col: 5, offset: 78238},
+					pos: position{line: 2419, col: 5, offset: 78282},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2419, col: 5, offset: 78238},
+							pos: position{line: 2419, col: 5, offset: 78282},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2422, col: 5, offset: 78303},
+							pos:   position{line: 2422, col: 5, offset: 78347},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2423, col: 9, offset: 78321},
+								pos: position{line: 2423, col: 9, offset: 78365},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 9, offset: 78321},
+										pos:  position{line: 2423, col: 9, offset: 78365},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78342},
+										pos:  position{line: 2424, col: 11, offset: 78386},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78365},
+										pos:  position{line: 2425, col: 11, offset: 78409},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78381},
+										pos:  position{line: 2426, col: 11, offset: 78425},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78410},
+										pos:  position{line: 2427, col: 11, offset: 78454},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78436},
+										pos:  position{line: 2428, col: 11, offset: 78480},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78462},
+										pos:  position{line: 2429, col: 11, offset: 78506},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1253, col: 5, offset: 38776},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1253, col: 5, offset: 38776},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1253, col: 5, offset: 38776},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1253, col: 14, offset: 38785},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 7, offset: 90586},
+														pos: position{line: 2860, col: 7, offset: 90630},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2860, col: 7, offset: 90586},
+															pos: position{line: 2860, col: 7, offset: 90630},
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 7, offset: 90586},
+																pos:        position{line: 2860, col: 7, offset: 90630},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45521,7 +45521,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1253, col: 22, offset: 38793},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45530,27 +45530,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1258, col: 5, offset: 38912},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1258, col: 5, offset: 38912},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1258, col: 5, offset: 38912},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1258, col: 10, offset: 38917},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 7, offset: 90586},
+														pos: position{line: 2860, col: 7, offset: 90630},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2860, col: 7, offset: 90586},
+															pos: position{line: 2860, col: 7, offset: 90630},
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 7, offset: 90586},
+																pos:        position{line: 2860, col: 7, offset: 90630},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45560,7 +45560,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1258, col: 18, offset: 38925},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45569,40 +45569,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40357},
+										pos: position{line: 1297, col: 23, offset: 40401},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40357},
+											pos: position{line: 1297, col: 23, offset: 40401},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40357},
+													pos:        position{line: 1297, col: 23, offset: 40401},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40363},
+													pos:   position{line: 1297, col: 29, offset: 40407},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40694},
+														pos: position{line: 1304, col: 30, offset: 40738},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40694},
+															pos: position{line: 1304, col: 30, offset: 40738},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40695},
+																pos: position{line: 1304, col: 31, offset: 40739},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2765, col: 13, offset: 88029},
+																		pos:        position{line: 2765, col: 13, offset: 88073},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90934},
+																		pos: position{line: 2875, col: 10, offset: 90978},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90934},
+																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45615,23 +45615,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40402},
+													pos:   position{line: 1298, col: 5, offset: 40446},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40408},
+														pos: position{line: 1298, col: 11, offset: 40452},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40409},
+															pos: position{line: 1298, col: 12, offset: 40453},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40409},
+																pos: position{line: 1298, col: 12, offset: 40453},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40409},
+																		pos: position{line: 1298, col: 12, offset: 40453},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45640,18 +45640,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40416},
+																		pos:        position{line: 1298, col: 19, offset: 40460},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40420},
+																		pos: position{line: 1298, col: 23, offset: 40464},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45660,28 +45660,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40427},
+																		pos:   position{line: 1298, col: 30, offset: 40471},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1304, col: 30, offset: 40738},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1304, col: 30, offset: 40738},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1304, col: 31, offset: 40739},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2765, col: 13, offset: 88029},
+																							pos:        position{line: 2765, col: 13, offset: 88073},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45699,23 +45699,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40494},
+													pos:   position{line: 1299, col: 5, offset: 40538},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40500},
+														pos: position{line: 1299, col: 11, offset: 40544},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40501},
+															pos: position{line: 1299, col: 12, offset: 40545},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40501},
+																pos: position{line: 1299, col: 12, offset: 40545},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40501},
+																		pos: position{line: 1299, col: 12, offset: 40545},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45724,18 +45724,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40508},
+																		pos:        position{line: 1299, col: 19, offset: 40552},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40512},
+																		pos: position{line: 1299, col: 23, offset: 40556},
 																		expr: &actionExpr{
-																			pos: position{line: 2875, col: 10, offset: 90934},
+																			pos: position{line: 2875, col: 10, offset: 90978},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 10, offset: 90934},
+																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45744,28 +45744,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40519},
+																		pos:   position{line: 1299, col: 30, offset: 40563},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1304, col: 30, offset: 40738},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1304, col: 30, offset: 40738},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1304, col: 31, offset: 40739},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2765, col: 13, offset: 88029},
+																							pos:        position{line: 2765, col: 13, offset: 88073},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2875, col: 10, offset: 90934},
+																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 10, offset: 90934},
+																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45783,7 +45783,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40586},
+													pos:        position{line: 1300, col: 5, offset: 40630},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45792,15 +45792,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78541},
+										pos:  position{line: 2432, col: 11, offset: 78585},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78561},
+										pos:  position{line: 2433, col: 11, offset: 78605},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78584},
+										pos:  position{line: 2434, col: 11, offset: 78628},
 										name: "InlineMenu",
 									},
 								},
@@ -45812,80 +45812,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2438, col: 1, offset: 78641},
+			pos:  position{line: 2438, col: 1, offset: 78685},
 			expr: &actionExpr{
-				pos: position{line: 2440, col: 5, offset: 78729},
+				pos: position{line: 2440, col: 5, offset: 78773},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2440, col: 5, offset: 78729},
+					pos: position{line: 2440, col: 5, offset: 78773},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2440, col: 5, offset: 78729},
+							pos: position{line: 2440, col: 5, offset: 78773},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 78806},
+							pos:   position{line: 2443, col: 5, offset: 78850},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 78824},
+								pos: position{line: 2444, col: 9, offset: 78868},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43964},
+										pos: position{line: 1379, col: 26, offset: 44008},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43964},
+											pos: position{line: 1379, col: 26, offset: 44008},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1377, col: 32, offset: 43976},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43992},
+													pos:   position{line: 1379, col: 54, offset: 44036},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44205},
+														pos: position{line: 1383, col: 33, offset: 44249},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44206},
+																pos: position{line: 1383, col: 34, offset: 44250},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44206},
+																	pos: position{line: 1383, col: 34, offset: 44250},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44207},
+																		pos: position{line: 1383, col: 35, offset: 44251},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44207},
+																				pos: position{line: 1383, col: 35, offset: 44251},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1377, col: 32, offset: 43976},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44236,
+																				line: 1383, col: 64, offset: 44280,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44409},
+																pos: position{line: 1385, col: 11, offset: 44453},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44409},
+																	pos: position{line: 1385, col: 11, offset: 44453},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44410},
+																		pos: position{line: 1385, col: 12, offset: 44454},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44410},
+																				pos: position{line: 1385, col: 12, offset: 44454},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90934},
+																					pos: position{line: 2875, col: 10, offset: 90978},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90934},
+																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45894,27 +45894,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44417},
+																				pos: position{line: 1385, col: 19, offset: 44461},
 																				expr: &actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91105},
+																					pos: position{line: 2884, col: 12, offset: 91149},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91106},
+																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91106},
+																								pos:        position{line: 2884, col: 13, offset: 91150},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91113},
+																								pos:        position{line: 2884, col: 20, offset: 91157},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91122},
+																								pos:        position{line: 2884, col: 29, offset: 91166},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45924,16 +45924,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44426},
+																				pos: position{line: 1385, col: 28, offset: 44470},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1377, col: 32, offset: 43976},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44455,
+																				line: 1385, col: 57, offset: 44499,
 																			},
 																		},
 																	},
@@ -45943,15 +45943,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1377, col: 32, offset: 43976},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44059},
+													pos: position{line: 1379, col: 121, offset: 44103},
 													expr: &charClassMatcher{
-														pos:        position{line: 2765, col: 13, offset: 88029},
+														pos:        position{line: 2765, col: 13, offset: 88073},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45962,45 +45962,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43247},
+										pos: position{line: 1367, col: 26, offset: 43291},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43247},
+											pos: position{line: 1367, col: 26, offset: 43291},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1365, col: 32, offset: 43261},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43275},
+													pos:   position{line: 1367, col: 54, offset: 43319},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43488},
+														pos: position{line: 1371, col: 33, offset: 43532},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43489},
+																pos: position{line: 1371, col: 34, offset: 43533},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43489},
+																	pos: position{line: 1371, col: 34, offset: 43533},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43490},
+																			pos: position{line: 1371, col: 35, offset: 43534},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1365, col: 32, offset: 43261},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43519},
+																			pos: position{line: 1371, col: 64, offset: 43563},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46009,27 +46009,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43526},
+																			pos: position{line: 1371, col: 71, offset: 43570},
 																			expr: &actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46039,25 +46039,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43535,
+																			line: 1371, col: 80, offset: 43579,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43538},
+																			pos: position{line: 1371, col: 83, offset: 43582},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43539},
+																				pos: position{line: 1371, col: 84, offset: 43583},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43539},
+																						pos: position{line: 1371, col: 84, offset: 43583},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43541},
+																							pos: position{line: 1371, col: 86, offset: 43585},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2879, col: 11, offset: 90995},
+																									pos: position{line: 2879, col: 11, offset: 91039},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2879, col: 11, offset: 90995},
+																										pos: position{line: 2879, col: 11, offset: 91039},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2879, col: 11, offset: 90995},
+																											pos:        position{line: 2879, col: 11, offset: 91039},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46066,7 +46066,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43217},
+																									pos:        position{line: 1365, col: 32, offset: 43261},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46075,36 +46075,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43577},
+																						pos: position{line: 1371, col: 122, offset: 43621},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43217},
+																							pos:        position{line: 1365, col: 32, offset: 43261},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43606},
+																						pos: position{line: 1371, col: 151, offset: 43650},
 																						expr: &actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91105},
+																							pos: position{line: 2884, col: 12, offset: 91149},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91106},
+																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91106},
+																										pos:        position{line: 2884, col: 13, offset: 91150},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91113},
+																										pos:        position{line: 2884, col: 20, offset: 91157},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91122},
+																										pos:        position{line: 2884, col: 29, offset: 91166},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46114,7 +46114,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43615,
+																						line: 1371, col: 160, offset: 43659,
 																					},
 																				},
 																			},
@@ -46123,18 +46123,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43765},
+																pos: position{line: 1373, col: 11, offset: 43809},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43766},
+																	pos: position{line: 1373, col: 12, offset: 43810},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43766},
+																			pos: position{line: 1373, col: 12, offset: 43810},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90934},
+																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90934},
+																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46143,27 +46143,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43773},
+																			pos: position{line: 1373, col: 19, offset: 43817},
 																			expr: &actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91105},
+																				pos: position{line: 2884, col: 12, offset: 91149},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91106},
+																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91106},
+																							pos:        position{line: 2884, col: 13, offset: 91150},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91113},
+																							pos:        position{line: 2884, col: 20, offset: 91157},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91122},
+																							pos:        position{line: 2884, col: 29, offset: 91166},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46173,16 +46173,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43782},
+																			pos: position{line: 1373, col: 28, offset: 43826},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1365, col: 32, offset: 43261},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43811,
+																			line: 1373, col: 57, offset: 43855,
 																		},
 																	},
 																},
@@ -46191,15 +46191,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1365, col: 32, offset: 43261},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43342},
+													pos: position{line: 1367, col: 121, offset: 43386},
 													expr: &charClassMatcher{
-														pos:        position{line: 2765, col: 13, offset: 88029},
+														pos:        position{line: 2765, col: 13, offset: 88073},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46210,7 +46210,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 57, offset: 78872},
+										pos:  position{line: 2444, col: 57, offset: 78916},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46222,16 +46222,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2449, col: 1, offset: 78932},
+			pos:  position{line: 2449, col: 1, offset: 78976},
 			expr: &seqExpr{
-				pos: position{line: 2451, col: 5, offset: 79008},
+				pos: position{line: 2451, col: 5, offset: 79052},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2451, col: 5, offset: 79008},
+						pos: position{line: 2451, col: 5, offset: 79052},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2454, col: 5, offset: 79073},
+						pos:  position{line: 2454, col: 5, offset: 79117},
 						name: "QuotedText",
 					},
 				},
@@ -46239,22 +46239,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2456, col: 1, offset: 79086},
+			pos:  position{line: 2456, col: 1, offset: 79130},
 			expr: &actionExpr{
-				pos: position{line: 2458, col: 5, offset: 79168},
+				pos: position{line: 2458, col: 5, offset: 79212},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2458, col: 5, offset: 79168},
+					pos: position{line: 2458, col: 5, offset: 79212},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2458, col: 5, offset: 79168},
+							pos: position{line: 2458, col: 5, offset: 79212},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2461, col: 5, offset: 79239},
+							pos:   position{line: 2461, col: 5, offset: 79283},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2462, col: 9, offset: 79257},
+								pos:  position{line: 2462, col: 9, offset: 79301},
 								name: "Symbol",
 							},
 						},
@@ -46264,103 +46264,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2520, col: 1, offset: 81087},
+			pos:  position{line: 2520, col: 1, offset: 81131},
 			expr: &choiceExpr{
-				pos: position{line: 2522, col: 5, offset: 81117},
+				pos: position{line: 2522, col: 5, offset: 81161},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2522, col: 5, offset: 81117},
+						pos: position{line: 2522, col: 5, offset: 81161},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2522, col: 5, offset: 81117},
+							pos: position{line: 2522, col: 5, offset: 81161},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2522, col: 5, offset: 81117},
+									pos:        position{line: 2522, col: 5, offset: 81161},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2522, col: 10, offset: 81122},
+									pos: position{line: 2522, col: 10, offset: 81166},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2522, col: 10, offset: 81122},
+											pos:  position{line: 2522, col: 10, offset: 81166},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2551, col: 14, offset: 82226},
+											pos: position{line: 2551, col: 14, offset: 82270},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2551, col: 14, offset: 82226},
+												pos:        position{line: 2551, col: 14, offset: 82270},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2555, col: 14, offset: 82292},
+											pos: position{line: 2555, col: 14, offset: 82336},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2555, col: 14, offset: 82292},
+												pos:        position{line: 2555, col: 14, offset: 82336},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2559, col: 15, offset: 82361},
+											pos: position{line: 2559, col: 15, offset: 82405},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2559, col: 15, offset: 82361},
+												pos:        position{line: 2559, col: 15, offset: 82405},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2563, col: 13, offset: 82426},
+											pos: position{line: 2563, col: 13, offset: 82470},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2563, col: 13, offset: 82426},
+												pos:        position{line: 2563, col: 13, offset: 82470},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 21, offset: 82996},
+											pos: position{line: 2591, col: 21, offset: 83040},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 21, offset: 82996},
+												pos:        position{line: 2591, col: 21, offset: 83040},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2570, col: 5, offset: 82582},
+											pos: position{line: 2570, col: 5, offset: 82626},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2570, col: 5, offset: 82582},
+												pos: position{line: 2570, col: 5, offset: 82626},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2570, col: 5, offset: 82582},
+														pos:        position{line: 2570, col: 5, offset: 82626},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2571, col: 5, offset: 82592},
+														pos: position{line: 2571, col: 5, offset: 82636},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2575, col: 6, offset: 82679},
+														pos: position{line: 2575, col: 6, offset: 82723},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 10, offset: 90934},
+																pos: position{line: 2875, col: 10, offset: 90978},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2875, col: 10, offset: 90934},
+																	pos:        position{line: 2875, col: 10, offset: 90978},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46368,30 +46368,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2575, col: 14, offset: 82687},
+																pos: position{line: 2575, col: 14, offset: 82731},
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91332},
+																	pos: position{line: 2897, col: 8, offset: 91376},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91105},
+																			pos: position{line: 2884, col: 12, offset: 91149},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91106},
+																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91106},
+																						pos:        position{line: 2884, col: 13, offset: 91150},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91113},
+																						pos:        position{line: 2884, col: 20, offset: 91157},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91122},
+																						pos:        position{line: 2884, col: 29, offset: 91166},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46400,9 +46400,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91282},
+																			pos: position{line: 2894, col: 8, offset: 91326},
 																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91283,
+																				line: 2894, col: 9, offset: 91327,
 																			},
 																		},
 																	},
@@ -46414,53 +46414,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 5, offset: 82807},
+											pos: position{line: 2580, col: 5, offset: 82851},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2580, col: 5, offset: 82807},
+												pos: position{line: 2580, col: 5, offset: 82851},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2580, col: 5, offset: 82807},
+														pos:        position{line: 2580, col: 5, offset: 82851},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2581, col: 5, offset: 82817},
+														pos: position{line: 2581, col: 5, offset: 82861},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2585, col: 5, offset: 82906},
+														pos: position{line: 2585, col: 5, offset: 82950},
 														expr: &choiceExpr{
-															pos: position{line: 2585, col: 7, offset: 82908},
+															pos: position{line: 2585, col: 7, offset: 82952},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2765, col: 13, offset: 88029},
+																	pos:        position{line: 2765, col: 13, offset: 88073},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 12, offset: 91105},
+																	pos: position{line: 2884, col: 12, offset: 91149},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2884, col: 13, offset: 91106},
+																		pos: position{line: 2884, col: 13, offset: 91150},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 13, offset: 91106},
+																				pos:        position{line: 2884, col: 13, offset: 91150},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 20, offset: 91113},
+																				pos:        position{line: 2884, col: 20, offset: 91157},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2884, col: 29, offset: 91122},
+																				pos:        position{line: 2884, col: 29, offset: 91166},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46469,9 +46469,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -46481,30 +46481,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 20, offset: 83066},
+											pos: position{line: 2595, col: 20, offset: 83110},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 20, offset: 83066},
+												pos:        position{line: 2595, col: 20, offset: 83110},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 21, offset: 83137},
+											pos: position{line: 2599, col: 21, offset: 83181},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 21, offset: 83137},
+												pos:        position{line: 2599, col: 21, offset: 83181},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 20, offset: 83207},
+											pos: position{line: 2603, col: 20, offset: 83251},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 20, offset: 83207},
+												pos:        position{line: 2603, col: 20, offset: 83251},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46516,73 +46516,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2526, col: 7, offset: 81377},
+						pos:  position{line: 2526, col: 7, offset: 81421},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2551, col: 14, offset: 82226},
+						pos: position{line: 2551, col: 14, offset: 82270},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2551, col: 14, offset: 82226},
+							pos:        position{line: 2551, col: 14, offset: 82270},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 14, offset: 82292},
+						pos: position{line: 2555, col: 14, offset: 82336},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2555, col: 14, offset: 82292},
+							pos:        position{line: 2555, col: 14, offset: 82336},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2559, col: 15, offset: 82361},
+						pos: position{line: 2559, col: 15, offset: 82405},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2559, col: 15, offset: 82361},
+							pos:        position{line: 2559, col: 15, offset: 82405},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2563, col: 13, offset: 82426},
+						pos: position{line: 2563, col: 13, offset: 82470},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2563, col: 13, offset: 82426},
+							pos:        position{line: 2563, col: 13, offset: 82470},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 5, offset: 82582},
+						pos: position{line: 2570, col: 5, offset: 82626},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2570, col: 5, offset: 82582},
+							pos: position{line: 2570, col: 5, offset: 82626},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2570, col: 5, offset: 82582},
+									pos:        position{line: 2570, col: 5, offset: 82626},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2571, col: 5, offset: 82592},
+									pos: position{line: 2571, col: 5, offset: 82636},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2575, col: 6, offset: 82679},
+									pos: position{line: 2575, col: 6, offset: 82723},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2875, col: 10, offset: 90934},
+											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2875, col: 10, offset: 90934},
+												pos:        position{line: 2875, col: 10, offset: 90978},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46590,30 +46590,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2575, col: 14, offset: 82687},
+											pos: position{line: 2575, col: 14, offset: 82731},
 											expr: &choiceExpr{
-												pos: position{line: 2897, col: 8, offset: 91332},
+												pos: position{line: 2897, col: 8, offset: 91376},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2884, col: 12, offset: 91105},
+														pos: position{line: 2884, col: 12, offset: 91149},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2884, col: 13, offset: 91106},
+															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2884, col: 13, offset: 91106},
+																	pos:        position{line: 2884, col: 13, offset: 91150},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 20, offset: 91113},
+																	pos:        position{line: 2884, col: 20, offset: 91157},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2884, col: 29, offset: 91122},
+																	pos:        position{line: 2884, col: 29, offset: 91166},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46622,9 +46622,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2894, col: 8, offset: 91282},
+														pos: position{line: 2894, col: 8, offset: 91326},
 														expr: &anyMatcher{
-															line: 2894, col: 9, offset: 91283,
+															line: 2894, col: 9, offset: 91327,
 														},
 													},
 												},
@@ -46636,53 +46636,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 5, offset: 82807},
+						pos: position{line: 2580, col: 5, offset: 82851},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2580, col: 5, offset: 82807},
+							pos: position{line: 2580, col: 5, offset: 82851},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2580, col: 5, offset: 82807},
+									pos:        position{line: 2580, col: 5, offset: 82851},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2581, col: 5, offset: 82817},
+									pos: position{line: 2581, col: 5, offset: 82861},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2585, col: 5, offset: 82906},
+									pos: position{line: 2585, col: 5, offset: 82950},
 									expr: &choiceExpr{
-										pos: position{line: 2585, col: 7, offset: 82908},
+										pos: position{line: 2585, col: 7, offset: 82952},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2765, col: 13, offset: 88029},
+												pos:        position{line: 2765, col: 13, offset: 88073},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2884, col: 12, offset: 91105},
+												pos: position{line: 2884, col: 12, offset: 91149},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2884, col: 13, offset: 91106},
+													pos: position{line: 2884, col: 13, offset: 91150},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2884, col: 13, offset: 91106},
+															pos:        position{line: 2884, col: 13, offset: 91150},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2884, col: 20, offset: 91113},
+															pos:        position{line: 2884, col: 20, offset: 91157},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2884, col: 29, offset: 91122},
+															pos:        position{line: 2884, col: 29, offset: 91166},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46691,9 +46691,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2894, col: 8, offset: 91282},
+												pos: position{line: 2894, col: 8, offset: 91326},
 												expr: &anyMatcher{
-													line: 2894, col: 9, offset: 91283,
+													line: 2894, col: 9, offset: 91327,
 												},
 											},
 										},
@@ -46703,40 +46703,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 21, offset: 82996},
+						pos: position{line: 2591, col: 21, offset: 83040},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 21, offset: 82996},
+							pos:        position{line: 2591, col: 21, offset: 83040},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 20, offset: 83066},
+						pos: position{line: 2595, col: 20, offset: 83110},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 20, offset: 83066},
+							pos:        position{line: 2595, col: 20, offset: 83110},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 21, offset: 83137},
+						pos: position{line: 2599, col: 21, offset: 83181},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 21, offset: 83137},
+							pos:        position{line: 2599, col: 21, offset: 83181},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 20, offset: 83207},
+						pos: position{line: 2603, col: 20, offset: 83251},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 20, offset: 83207},
+							pos:        position{line: 2603, col: 20, offset: 83251},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46747,43 +46747,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2537, col: 1, offset: 81567},
+			pos:  position{line: 2537, col: 1, offset: 81611},
 			expr: &choiceExpr{
-				pos: position{line: 2538, col: 5, offset: 81589},
+				pos: position{line: 2538, col: 5, offset: 81633},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2538, col: 5, offset: 81589},
+						pos: position{line: 2538, col: 5, offset: 81633},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2538, col: 5, offset: 81589},
+							pos: position{line: 2538, col: 5, offset: 81633},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2538, col: 5, offset: 81589},
+									pos:        position{line: 2538, col: 5, offset: 81633},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2538, col: 11, offset: 81595},
+									pos: position{line: 2538, col: 11, offset: 81639},
 									expr: &seqExpr{
-										pos: position{line: 2080, col: 5, offset: 67198},
+										pos: position{line: 2080, col: 5, offset: 67242},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2080, col: 5, offset: 67198},
+												pos:        position{line: 2080, col: 5, offset: 67242},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2081, col: 5, offset: 67207},
+												pos: position{line: 2081, col: 5, offset: 67251},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2085, col: 5, offset: 67330},
+												pos: position{line: 2085, col: 5, offset: 67374},
 												expr: &notExpr{
-													pos: position{line: 2085, col: 7, offset: 67332},
+													pos: position{line: 2085, col: 7, offset: 67376},
 													expr: &litMatcher{
-														pos:        position{line: 2085, col: 8, offset: 67333},
+														pos:        position{line: 2085, col: 8, offset: 67377},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46797,21 +46797,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2541, col: 7, offset: 81748},
+						pos: position{line: 2541, col: 7, offset: 81792},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2541, col: 7, offset: 81748},
+							pos: position{line: 2541, col: 7, offset: 81792},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2541, col: 7, offset: 81748},
+									pos:        position{line: 2541, col: 7, offset: 81792},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2541, col: 13, offset: 81754},
+									pos: position{line: 2541, col: 13, offset: 81798},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2541, col: 14, offset: 81755},
+										pos:  position{line: 2541, col: 14, offset: 81799},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46819,38 +46819,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 7, offset: 81905},
+						pos: position{line: 2544, col: 7, offset: 81949},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 7, offset: 81905},
+							pos: position{line: 2544, col: 7, offset: 81949},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2544, col: 7, offset: 81905},
+									pos:        position{line: 2544, col: 7, offset: 81949},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2544, col: 12, offset: 81910},
+									pos: position{line: 2544, col: 12, offset: 81954},
 									expr: &seqExpr{
-										pos: position{line: 2080, col: 5, offset: 67198},
+										pos: position{line: 2080, col: 5, offset: 67242},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2080, col: 5, offset: 67198},
+												pos:        position{line: 2080, col: 5, offset: 67242},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2081, col: 5, offset: 67207},
+												pos: position{line: 2081, col: 5, offset: 67251},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2085, col: 5, offset: 67330},
+												pos: position{line: 2085, col: 5, offset: 67374},
 												expr: &notExpr{
-													pos: position{line: 2085, col: 7, offset: 67332},
+													pos: position{line: 2085, col: 7, offset: 67376},
 													expr: &litMatcher{
-														pos:        position{line: 2085, col: 8, offset: 67333},
+														pos:        position{line: 2085, col: 8, offset: 67377},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46864,21 +46864,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 7, offset: 82063},
+						pos: position{line: 2547, col: 7, offset: 82107},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 7, offset: 82063},
+							pos: position{line: 2547, col: 7, offset: 82107},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 7, offset: 82063},
+									pos:        position{line: 2547, col: 7, offset: 82107},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2547, col: 12, offset: 82068},
+									pos: position{line: 2547, col: 12, offset: 82112},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2547, col: 13, offset: 82069},
+										pos:  position{line: 2547, col: 13, offset: 82113},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46890,63 +46890,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2680, col: 1, offset: 85109},
+			pos:  position{line: 2680, col: 1, offset: 85153},
 			expr: &actionExpr{
-				pos: position{line: 2680, col: 26, offset: 85134},
+				pos: position{line: 2680, col: 26, offset: 85178},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2680, col: 26, offset: 85134},
+					pos: position{line: 2680, col: 26, offset: 85178},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2680, col: 26, offset: 85134},
+							pos:   position{line: 2680, col: 26, offset: 85178},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2680, col: 31, offset: 85139},
+								pos: position{line: 2680, col: 31, offset: 85183},
 								expr: &actionExpr{
-									pos: position{line: 2685, col: 5, offset: 85202},
+									pos: position{line: 2685, col: 5, offset: 85246},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2685, col: 5, offset: 85202},
+										pos: position{line: 2685, col: 5, offset: 85246},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2892, col: 11, offset: 91268},
+												pos: position{line: 2892, col: 11, offset: 91312},
 												expr: &anyMatcher{
-													line: 2892, col: 13, offset: 91270,
+													line: 2892, col: 13, offset: 91314,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85328},
+												pos:   position{line: 2688, col: 5, offset: 85372},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 16, offset: 85339},
+													pos: position{line: 2688, col: 16, offset: 85383},
 													expr: &actionExpr{
-														pos: position{line: 2688, col: 17, offset: 85340},
+														pos: position{line: 2688, col: 17, offset: 85384},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2688, col: 17, offset: 85340},
+															pos: position{line: 2688, col: 17, offset: 85384},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2688, col: 17, offset: 85340},
+																	pos:   position{line: 2688, col: 17, offset: 85384},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 12, offset: 90761},
+																		pos: position{line: 2867, col: 12, offset: 90805},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2867, col: 13, offset: 90762},
+																			pos: position{line: 2867, col: 13, offset: 90806},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2867, col: 13, offset: 90762},
+																					pos: position{line: 2867, col: 13, offset: 90806},
 																					expr: &litMatcher{
-																						pos:        position{line: 2867, col: 13, offset: 90762},
+																						pos:        position{line: 2867, col: 13, offset: 90806},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2867, col: 18, offset: 90767},
+																					pos: position{line: 2867, col: 18, offset: 90811},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 18, offset: 90767},
+																						pos:        position{line: 2867, col: 18, offset: 90811},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46958,7 +46958,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2688, col: 27, offset: 85350},
+																	pos:        position{line: 2688, col: 27, offset: 85394},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46969,38 +46969,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85378},
+												pos:   position{line: 2689, col: 5, offset: 85422},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 12, offset: 85385},
+													pos: position{line: 2689, col: 12, offset: 85429},
 													expr: &choiceExpr{
-														pos: position{line: 2690, col: 9, offset: 85395},
+														pos: position{line: 2690, col: 9, offset: 85439},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2690, col: 9, offset: 85395},
+																pos: position{line: 2690, col: 9, offset: 85439},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 9, offset: 85395},
+																	pos:        position{line: 2690, col: 9, offset: 85439},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2691, col: 11, offset: 85442},
+																pos: position{line: 2691, col: 11, offset: 85486},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 11, offset: 85442},
+																	pos:        position{line: 2691, col: 11, offset: 85486},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85490},
+																pos: position{line: 2692, col: 11, offset: 85534},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85490},
+																	pos:        position{line: 2692, col: 11, offset: 85534},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47011,38 +47011,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2694, col: 5, offset: 85540},
+												pos:   position{line: 2694, col: 5, offset: 85584},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2694, col: 12, offset: 85547},
+													pos: position{line: 2694, col: 12, offset: 85591},
 													expr: &choiceExpr{
-														pos: position{line: 2695, col: 9, offset: 85557},
+														pos: position{line: 2695, col: 9, offset: 85601},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2695, col: 9, offset: 85557},
+																pos: position{line: 2695, col: 9, offset: 85601},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 9, offset: 85557},
+																	pos:        position{line: 2695, col: 9, offset: 85601},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2696, col: 11, offset: 85604},
+																pos: position{line: 2696, col: 11, offset: 85648},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 11, offset: 85604},
+																	pos:        position{line: 2696, col: 11, offset: 85648},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85654},
+																pos: position{line: 2697, col: 11, offset: 85698},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85654},
+																	pos:        position{line: 2697, col: 11, offset: 85698},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47053,32 +47053,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85705},
+												pos:   position{line: 2699, col: 5, offset: 85749},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 12, offset: 85712},
+													pos: position{line: 2699, col: 12, offset: 85756},
 													expr: &choiceExpr{
-														pos: position{line: 2699, col: 13, offset: 85713},
+														pos: position{line: 2699, col: 13, offset: 85757},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2867, col: 12, offset: 90761},
+																pos: position{line: 2867, col: 12, offset: 90805},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2867, col: 13, offset: 90762},
+																	pos: position{line: 2867, col: 13, offset: 90806},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2867, col: 13, offset: 90762},
+																			pos: position{line: 2867, col: 13, offset: 90806},
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 13, offset: 90762},
+																				pos:        position{line: 2867, col: 13, offset: 90806},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2867, col: 18, offset: 90767},
+																			pos: position{line: 2867, col: 18, offset: 90811},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 18, offset: 90767},
+																				pos:        position{line: 2867, col: 18, offset: 90811},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47089,10 +47089,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 24, offset: 85724},
+																pos: position{line: 2699, col: 24, offset: 85768},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 24, offset: 85724},
+																	pos:        position{line: 2699, col: 24, offset: 85768},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47103,15 +47103,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85766},
+												pos:   position{line: 2700, col: 5, offset: 85810},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 11, offset: 85772},
+													pos: position{line: 2700, col: 11, offset: 85816},
 													expr: &actionExpr{
-														pos: position{line: 2700, col: 12, offset: 85773},
+														pos: position{line: 2700, col: 12, offset: 85817},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2700, col: 12, offset: 85773},
+															pos:        position{line: 2700, col: 12, offset: 85817},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47121,12 +47121,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 85903},
+												pos:   position{line: 2702, col: 5, offset: 85947},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 11, offset: 85909},
+													pos: position{line: 2702, col: 11, offset: 85953},
 													expr: &litMatcher{
-														pos:        position{line: 2702, col: 12, offset: 85910},
+														pos:        position{line: 2702, col: 12, offset: 85954},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47134,7 +47134,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2703, col: 5, offset: 85920},
+												pos: position{line: 2703, col: 5, offset: 85964},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47143,9 +47143,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2894, col: 8, offset: 91282},
+							pos: position{line: 2894, col: 8, offset: 91326},
 							expr: &anyMatcher{
-								line: 2894, col: 9, offset: 91283,
+								line: 2894, col: 9, offset: 91327,
 							},
 						},
 					},
@@ -47154,23 +47154,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2730, col: 1, offset: 86929},
+			pos:  position{line: 2730, col: 1, offset: 86973},
 			expr: &actionExpr{
-				pos: position{line: 2731, col: 5, offset: 86952},
+				pos: position{line: 2731, col: 5, offset: 86996},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2731, col: 5, offset: 86952},
+					pos: position{line: 2731, col: 5, offset: 86996},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2731, col: 5, offset: 86952},
+							pos:   position{line: 2731, col: 5, offset: 86996},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2754, col: 18, offset: 87693},
+								pos: position{line: 2754, col: 18, offset: 87737},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2754, col: 19, offset: 87694},
+									pos: position{line: 2754, col: 19, offset: 87738},
 									expr: &charClassMatcher{
-										pos:        position{line: 2754, col: 19, offset: 87694},
+										pos:        position{line: 2754, col: 19, offset: 87738},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47181,25 +47181,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2732, col: 5, offset: 86978},
+							pos: position{line: 2732, col: 5, offset: 87022},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2736, col: 5, offset: 87106},
+							pos:        position{line: 2736, col: 5, offset: 87150},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2737, col: 5, offset: 87116},
+							pos:   position{line: 2737, col: 5, offset: 87160},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2758, col: 19, offset: 87769},
+								pos: position{line: 2758, col: 19, offset: 87813},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2758, col: 19, offset: 87769},
+									pos: position{line: 2758, col: 19, offset: 87813},
 									expr: &charClassMatcher{
-										pos:        position{line: 2758, col: 19, offset: 87769},
+										pos:        position{line: 2758, col: 19, offset: 87813},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47209,36 +47209,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87144},
+							pos:   position{line: 2738, col: 5, offset: 87188},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2738, col: 17, offset: 87156},
+								pos:  position{line: 2738, col: 17, offset: 87200},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2897, col: 8, offset: 91332},
+							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2884, col: 12, offset: 91105},
+									pos: position{line: 2884, col: 12, offset: 91149},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2884, col: 13, offset: 91106},
+										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2884, col: 13, offset: 91106},
+												pos:        position{line: 2884, col: 13, offset: 91150},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 20, offset: 91113},
+												pos:        position{line: 2884, col: 20, offset: 91157},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2884, col: 29, offset: 91122},
+												pos:        position{line: 2884, col: 29, offset: 91166},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47247,9 +47247,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 8, offset: 91282},
+									pos: position{line: 2894, col: 8, offset: 91326},
 									expr: &anyMatcher{
-										line: 2894, col: 9, offset: 91283,
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -47260,23 +47260,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2742, col: 1, offset: 87304},
+			pos:  position{line: 2742, col: 1, offset: 87348},
 			expr: &actionExpr{
-				pos: position{line: 2743, col: 5, offset: 87328},
+				pos: position{line: 2743, col: 5, offset: 87372},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2743, col: 5, offset: 87328},
+					pos: position{line: 2743, col: 5, offset: 87372},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2743, col: 5, offset: 87328},
+							pos:   position{line: 2743, col: 5, offset: 87372},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2754, col: 18, offset: 87693},
+								pos: position{line: 2754, col: 18, offset: 87737},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2754, col: 19, offset: 87694},
+									pos: position{line: 2754, col: 19, offset: 87738},
 									expr: &charClassMatcher{
-										pos:        position{line: 2754, col: 19, offset: 87694},
+										pos:        position{line: 2754, col: 19, offset: 87738},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47287,25 +47287,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2744, col: 5, offset: 87354},
+							pos: position{line: 2744, col: 5, offset: 87398},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2748, col: 5, offset: 87482},
+							pos:        position{line: 2748, col: 5, offset: 87526},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2749, col: 5, offset: 87491},
+							pos:   position{line: 2749, col: 5, offset: 87535},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2758, col: 19, offset: 87769},
+								pos: position{line: 2758, col: 19, offset: 87813},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2758, col: 19, offset: 87769},
+									pos: position{line: 2758, col: 19, offset: 87813},
 									expr: &charClassMatcher{
-										pos:        position{line: 2758, col: 19, offset: 87769},
+										pos:        position{line: 2758, col: 19, offset: 87813},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47315,10 +47315,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2750, col: 5, offset: 87519},
+							pos:   position{line: 2750, col: 5, offset: 87563},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2750, col: 17, offset: 87531},
+								pos:  position{line: 2750, col: 17, offset: 87575},
 								name: "InlineAttributes",
 							},
 						},
@@ -47328,43 +47328,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2829, col: 1, offset: 89581},
+			pos:  position{line: 2829, col: 1, offset: 89625},
 			expr: &actionExpr{
-				pos: position{line: 2829, col: 17, offset: 89597},
+				pos: position{line: 2829, col: 17, offset: 89641},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2829, col: 17, offset: 89597},
+					pos:   position{line: 2829, col: 17, offset: 89641},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2846, col: 5, offset: 90051},
+						pos: position{line: 2846, col: 5, offset: 90095},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2846, col: 5, offset: 90051},
+							pos:   position{line: 2846, col: 5, offset: 90095},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2846, col: 14, offset: 90060},
+								pos: position{line: 2846, col: 14, offset: 90104},
 								expr: &choiceExpr{
-									pos: position{line: 2847, col: 9, offset: 90070},
+									pos: position{line: 2847, col: 9, offset: 90114},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2847, col: 9, offset: 90070},
+											pos: position{line: 2847, col: 9, offset: 90114},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2847, col: 9, offset: 90070},
+												pos: position{line: 2847, col: 9, offset: 90114},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2847, col: 9, offset: 90070},
+														pos: position{line: 2847, col: 9, offset: 90114},
 														expr: &litMatcher{
-															pos:        position{line: 2847, col: 10, offset: 90071},
+															pos:        position{line: 2847, col: 10, offset: 90115},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2848, col: 9, offset: 90099},
+														pos: position{line: 2848, col: 9, offset: 90143},
 														expr: &charClassMatcher{
-															pos:        position{line: 2848, col: 10, offset: 90100},
+															pos:        position{line: 2848, col: 10, offset: 90144},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47375,27 +47375,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2851, col: 11, offset: 90312},
+											pos: position{line: 2851, col: 11, offset: 90356},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2851, col: 11, offset: 90312},
+													pos:        position{line: 2851, col: 11, offset: 90356},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2851, col: 19, offset: 90320},
+													pos: position{line: 2851, col: 19, offset: 90364},
 													expr: &seqExpr{
-														pos: position{line: 2851, col: 21, offset: 90322},
+														pos: position{line: 2851, col: 21, offset: 90366},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2851, col: 21, offset: 90322},
+																pos: position{line: 2851, col: 21, offset: 90366},
 																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90934},
+																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90934},
+																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47404,11 +47404,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2851, col: 28, offset: 90329},
+																pos: position{line: 2851, col: 28, offset: 90373},
 																expr: &notExpr{
-																	pos: position{line: 2894, col: 8, offset: 91282},
+																	pos: position{line: 2894, col: 8, offset: 91326},
 																	expr: &anyMatcher{
-																		line: 2894, col: 9, offset: 91283,
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -47418,44 +47418,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20153},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20153},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20153},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 639, col: 5, offset: 20225},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 639, col: 14, offset: 20234},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20363},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20363},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 645, col: 5, offset: 20363},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 645, col: 13, offset: 20371},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonFileLocation32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47463,9 +47463,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47478,7 +47478,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 645, col: 32, offset: 20390},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47487,28 +47487,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20631},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 652, col: 5, offset: 20631},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 652, col: 5, offset: 20631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 652, col: 9, offset: 20635},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonFileLocation42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47516,9 +47516,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47531,7 +47531,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 652, col: 28, offset: 20654},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47540,28 +47540,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20835},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 658, col: 25, offset: 20835},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 658, col: 25, offset: 20835},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 658, col: 37, offset: 20847},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonFileLocation52,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47569,9 +47569,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47584,33 +47584,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 658, col: 56, offset: 20866},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 658, col: 62, offset: 20872},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21167},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21171},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21178},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47618,12 +47618,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21232},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47640,7 +47640,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 658, col: 78, offset: 20888},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47649,28 +47649,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21006},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 662, col: 25, offset: 21006},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 662, col: 25, offset: 21006},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 662, col: 38, offset: 21019},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9780},
 																					run: (*parser).callonFileLocation74,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9780},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47678,9 +47678,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9791},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47693,33 +47693,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 662, col: 57, offset: 21038},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 662, col: 63, offset: 21044},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21167},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21167},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21171},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21178},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21178},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47727,12 +47727,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21232},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21232},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47749,7 +47749,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 662, col: 79, offset: 21060},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47764,27 +47764,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 37016},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1198, col: 23, offset: 37016},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36984},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1198, col: 51, offset: 37044},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37049},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1198, col: 56, offset: 37049},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1198, col: 56, offset: 37049},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47794,7 +47794,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36984},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47803,10 +47803,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2854, col: 11, offset: 90449},
+											pos: position{line: 2854, col: 11, offset: 90493},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2854, col: 11, offset: 90449},
+												pos:        position{line: 2854, col: 11, offset: 90493},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -48265,7 +48265,8 @@ func (p *parser) callonDocumentRawLine196() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine198() (interface{}, error) {
-	return types.NewLessThanOperand()
+	// must be before `<`
+	return types.NewLessOrEqualOperand()
 
 }
 
@@ -48276,7 +48277,7 @@ func (p *parser) callonDocumentRawLine198() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine200() (interface{}, error) {
-	return types.NewLessOrEqualOperand()
+	return types.NewLessThanOperand()
 
 }
 
@@ -48287,7 +48288,8 @@ func (p *parser) callonDocumentRawLine200() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine202() (interface{}, error) {
-	return types.NewGreaterThanOperand()
+	// must be before `>`
+	return types.NewGreaterOrEqualOperand()
 
 }
 
@@ -48298,7 +48300,7 @@ func (p *parser) callonDocumentRawLine202() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine204() (interface{}, error) {
-	return types.NewGreaterOrEqualOperand()
+	return types.NewGreaterThanOperand()
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 71d30a1..77338f6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -103,18 +103,18 @@ IfevalExpressionOperand <-
     / ("!=" {
         return types.NewNotEqualOperand()
     })
+    / ("<=" { // must be before `<`
+        return types.NewLessOrEqualOperand()
+    })
     / ("<" {
         return types.NewLessThanOperand()
     })
-    / ("<=" {
-        return types.NewLessOrEqualOperand()
+    / (">=" { // must be before `>`
+        return types.NewGreaterOrEqualOperand()
     })
     / (">" {
         return types.NewGreaterThanOperand()
     })
-    / (">=" {
-        return types.NewGreaterOrEqualOperand()
-    })
 
 IfevalExpressionValue <- 
     Number
-- 
2.43.0


From 15b6bbaa3b1541e60067b4d0b7088e92c4e10924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 31/76] fix: compare the value of attributes with numbers in
 ifeval

---
 pkg/types/types.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index df42d25..a3838ea 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3147,7 +3147,24 @@ func NewIfevalCondition(left, right interface{}, operand IfevalOperand) (*Ifeval
 var _ ConditionalInclusion = &IfevalCondition{}
 
 func (c *IfevalCondition) Eval(attributes map[string]interface{}) bool {
-	return c.Operand(c.left(attributes), c.right(attributes))
+	left, right := c.left(attributes), c.right(attributes)
+	// values of attributes which are compared with a number
+	if _, ok := right.(int); ok {
+		left = toIntIfPossible(left)
+	}
+	if _, ok := left.(int); ok {
+		right = toIntIfPossible(right)
+	}
+	return c.Operand(left, right)
+}
+
+func toIntIfPossible(value interface{}) interface{} {
+	if s, ok := value.(string); ok {
+		if v, err := strconv.Atoi(s); err == nil {
+			return v
+		}
+	}
+	return value
 }
 
 func (c *IfevalCondition) left(attributes map[string]interface{}) interface{} {
-- 
2.43.0


From ff20ff2bc27ccc460b582621da6f37eb9a48fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 32/76] fix: do not process directives and attributes in
 excluded conditional content

---
 pkg/parser/document_preprocessing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index afb10b0..f9aa3c5 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -43,6 +43,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
 			// }
+			if !b.enabled {
+				// skip everything but the (nested) conditions and their end when the content is excluded
+				switch element.(type) {
+				case types.ConditionalInclusion, *types.EndOfCondition:
+				default:
+					continue
+				}
+			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				ctx.attributes.set(e.Name, e.Value)
-- 
2.43.0


From fc4c1e26803e3b8871ea9fef2fe0596a0250cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 33/76] fix: evaluate conditions with the attributes declared
 in included files

---
 pkg/parser/document_preprocessing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index f9aa3c5..c817d03 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -61,7 +61,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
 			case *types.FileInclusion:
-				f, err := includeFile(ctx.Clone(), e)
+				includeCtx := ctx.Clone()
+				includeCtx.attributes = ctx.attributes // attributes declared in the included file remain available afterwards
+				f, err := includeFile(includeCtx, e)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From ed13f9eecf77be6bebde22ff35fc6fb9d637f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 34/76] fix: do not panic when including sections with a
 negative offset

---
 pkg/types/types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index a3838ea..3bedc9b 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2560,8 +2560,16 @@ func NewRawSection(level int, rawText string) (*RawSection, error) {
 }
 
 func (s *RawSection) OffsetLevel(offset int) {
-	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", s.Level+1+offset)+" ", 1)
+	from := rawSectionPrefix(s.Level)
 	s.Level = s.Level + offset
+	s.RawText = strings.Replace(s.RawText, from, rawSectionPrefix(s.Level), 1)
+}
+
+func rawSectionPrefix(level int) string {
+	if level < 0 { // may happen with negative offsets
+		level = 0
+	}
+	return strings.Repeat("=", level+1) + " "
 }
 
 func (s *RawSection) Stringify() string {
-- 
2.43.0


From a9ca9465b629e36a46f71fbab1b161df14db79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 35/76] fix: do not add a blank line when there is nothing to
 include

---
 pkg/parser/document_preprocessing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index c817d03..1fea034 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -67,7 +67,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 				if err != nil {
 					return "", err
 				}
-				b.WriteString(f)
+				if f != "" { // no blank line if there is nothing to include
+					b.WriteString(f)
+				}
 			case *types.BlockDelimiter:
 				t.track(e.Kind, e.Length)
 				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
-- 
2.43.0


From 375b728207080b08c735ea7f04f40a22a8c062f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:20 +0000
Subject: [PATCH 36/76] fix: report files which include themselves

---
 pkg/parser/context.go                | 2 ++
 pkg/parser/document_preprocessing.go | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 350500f..d16f9ab 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -13,6 +13,7 @@ type ParseContext struct {
 	filename     string
 	opts         []Option
 	levelOffsets levelOffsets
+	includeDepth int // number of nested file inclusions
 	attributes   *contextAttributes
 	userMacros   map[string]configuration.MacroTemplate
 	counters     map[string]interface{}
@@ -45,6 +46,7 @@ func (c *ParseContext) Clone() *ParseContext {
 		filename:     c.filename,
 		opts:         options(c.opts).clone(),
 		levelOffsets: c.levelOffsets.clone(),
+		includeDepth: c.includeDepth,
 		attributes:   c.attributes.clone(),
 		userMacros:   c.userMacros,
 		counters:     c.counters,
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 1fea034..f85dc3e 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -125,11 +125,18 @@ func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
 
+// maxIncludeDepth the maximum number of nested file inclusions
+const maxIncludeDepth = 64
+
 // replace the content of this FileInclusion element the content of the target file
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
 // of the inclusion (for example, within a delimited block) is not lost.
 func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
+	ctx.includeDepth++
+	if ctx.includeDepth > maxIncludeDepth { // eg: a file which includes itself
+		return "", errors.Errorf("Unresolved directive in %s - %s: maximum include depth of %d exceeded", ctx.filename, incl.RawText, maxIncludeDepth)
+	}
 	ctx.opts = append(ctx.opts, GlobalStore(documentHeaderKey, false))
 	if l, ok := incl.GetLocation().Path.([]interface{}); ok {
 		l, err := replaceAttributeRefsInSlicedValue(ctx, l)
-- 
2.43.0


From 99e9ec932cc1e579af9e9ec87caa45f739c14759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 37/76] fix: manpage Name section must be a single paragraph

---
 pkg/validator/validator.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index 4d75b31..92e78c0 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -54,7 +54,7 @@ func validateManpage(doc *types.Document) []Problem {
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1); !ok {
+	} else if ok := assertThatElements(nameSection.Elements).areSingleParagraph(); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
@@ -128,6 +128,10 @@ type elementsAssertion struct {
 	elements []interface{}
 }
 
-func (e elementsAssertion) haveCount(count int) bool {
-	return len(e.elements) == count
+func (e elementsAssertion) areSingleParagraph() bool {
+	if len(e.elements) != 1 {
+		return false
+	}
+	_, ok := e.elements[0].(*types.Paragraph)
+	return ok
 }
-- 
2.43.0


From 2c45df5f60a4389a971acccea6639ba711e138a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 38/76] fix: do not alter the configuration during a conversion

---
 libasciidoc.go                     | 5 ++++-
 pkg/configuration/configuration.go | 2 +-
 pkg/renderer/sgml/context.go       | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 91de0a4..3d51231 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -79,7 +79,10 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	if len(problems) > 0 {
 		// if any problem found, change the doctype to render the document as a regular article
 		log.Warnf("changing doctype to 'article' because problems were found in the document: %v", problems)
-		config.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		c := *config // do not alter the configuration of the caller
+		c.Attributes = config.Attributes.Clone()
+		c.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		config = &c
 		for _, problem := range problems {
 			switch problem.Severity {
 			case validator.Error:
diff --git a/pkg/configuration/configuration.go b/pkg/configuration/configuration.go
index 69ab6c2..7909183 100644
--- a/pkg/configuration/configuration.go
+++ b/pkg/configuration/configuration.go
@@ -65,7 +65,7 @@ func WithLastUpdated(value time.Time) Setting {
 // WithAttributes function to set the `attribute overrides`
 func WithAttributes(attrs map[string]interface{}) Setting {
 	return func(config *Configuration) {
-		config.Attributes = attrs
+		config.Attributes = types.Attributes(attrs).Clone() // do not retain (and alter) the map of the caller
 	}
 }
 
diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e284204..3f6283f 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -24,7 +24,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx := &context{
 		config:            config,
 		counters:          make(map[string]int),
-		attributes:        config.Attributes,
+		attributes:        config.Attributes.Clone(), // the configuration (which may be shared) must not be altered while rendering
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
 	}
-- 
2.43.0


From eca164f8388cfef34e00fd383250ea772de5db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 39/76] fix: attributes of the configuration take precedence
 while rendering

---
 pkg/renderer/sgml/context.go  | 35 ++++++++++++++++++++++++++++-------
 pkg/renderer/sgml/elements.go |  6 +++---
 pkg/renderer/sgml/sgml.go     |  8 ++++----
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 3f6283f..3a73bbd 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -29,24 +29,45 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		hasHeader:         header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
-	ctx.attributes[types.AttrFigureCaption] = "Figure"
-	ctx.attributes[types.AttrExampleCaption] = "Example"
-	ctx.attributes[types.AttrTableCaption] = "Table"
-	ctx.attributes[types.AttrVersionLabel] = "version"
+	ctx.setAttribute(types.AttrFigureCaption, "Figure")
+	ctx.setAttribute(types.AttrExampleCaption, "Example")
+	ctx.setAttribute(types.AttrTableCaption, "Table")
+	ctx.setAttribute(types.AttrVersionLabel, "version")
 	// also, expand authors and revision
 	if header != nil {
 		if authors := header.Authors(); authors != nil {
-			ctx.attributes.AddAll(authors.Expand())
+			ctx.setAttributes(authors.Expand())
 		}
 
 		if revision := header.Revision(); revision != nil {
-			ctx.attributes.AddAll(revision.Expand())
-
+			ctx.setAttributes(revision.Expand())
 		}
 	}
 	return ctx
 }
 
+// setAttribute sets the attribute with the given name, unless it was already set in the configuration,
+// since such attributes take precedence over the ones defined in the document
+func (ctx *context) setAttribute(name string, value interface{}) {
+	if !ctx.config.Attributes.Has(name) {
+		ctx.attributes[name] = value
+	}
+}
+
+// setAttributes sets all given attributes, unless they were already set in the configuration.
+func (ctx *context) setAttributes(attrs types.Attributes) {
+	for name, value := range attrs {
+		ctx.setAttribute(name, value)
+	}
+}
+
+// unsetAttribute removes the attribute with the given name, unless it was set in the configuration.
+func (ctx *context) unsetAttribute(name string) {
+	if !ctx.config.Attributes.Has(name) {
+		delete(ctx.attributes, name)
+	}
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index c03a25e..ad9ff86 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,13 +103,13 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.attributes[e.Name] = e.Value
+		ctx.setAttribute(e.Name, e.Value)
 		return "", nil
 	case *types.AttributeReset:
-		delete(ctx.attributes, e.Name)
+		ctx.unsetAttribute(e.Name)
 		return "", nil
 	case *types.FrontMatter:
-		ctx.attributes.AddAll(e.Attributes)
+		ctx.setAttributes(e.Attributes)
 		return "", nil
 	default:
 		return "", errors.Errorf("unsupported type of element: %T", element)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index e7691e7..3890984 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,9 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes[e.Name] = e.Value
+				ctx.setAttribute(e.Name, e.Value)
 			case *types.AttributeReset:
-				delete(ctx.attributes, e.Name)
+				ctx.unsetAttribute(e.Name)
 			}
 		}
 	}
@@ -64,9 +64,9 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.attributes[e.Name] = e.Value
+			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
-			delete(ctx.attributes, e.Name)
+			ctx.unsetAttribute(e.Name)
 		default:
 			break elements
 		}
-- 
2.43.0


From 230fa2942cb882d245e1597ef465e7b7286eaa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 40/76] fix: validate the doctype declared in the document

---
 libasciidoc.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 3d51231..5a483c3 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -70,8 +70,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	}
 	emdOfParse = time.Now()
 	// validate the document
-	doctype := config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
-	problems, err := validator.Validate(doc, doctype)
+	problems, err := validator.Validate(doc, doctype(doc, config))
 	if err != nil {
 		return types.Metadata{}, err
 	}
@@ -102,3 +101,31 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	return metadata, nil
 
 }
+
+// doctype returns the type of the given document, as set in the configuration or else, in the document itself
+func doctype(doc *types.Document, config *configuration.Configuration) string {
+	result := types.Attributes{}
+	declare := func(element interface{}) bool {
+		switch e := element.(type) {
+		case *types.AttributeDeclaration:
+			result[e.Name] = e.Value
+		case *types.AttributeReset:
+			delete(result, e.Name)
+		default:
+			return false
+		}
+		return true
+	}
+	if header, _ := doc.Header(); header != nil {
+		for _, e := range header.Elements {
+			declare(e)
+		}
+	}
+	for _, e := range doc.Elements {
+		if !declare(e) {
+			break
+		}
+	}
+	result.AddAll(config.Attributes)
+	return result.GetAsStringWithDefault(types.AttrDocType, "article")
+}
-- 
2.43.0


From 249c3e61ab1762b522e2e36d4212ac96a9d0b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 41/76] fix: keep the text which is not valid UTF-8

---
 pkg/parser/context.go                | 1 +
 pkg/parser/document_preprocessing.go | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index d16f9ab..bbf8790 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -25,6 +25,7 @@ func NewParseContext(config *configuration.Configuration, options ...Option) *Pa
 	}
 	opts := []Option{
 		Entrypoint("DocumentFragment"),
+		AllowInvalidUTF8(true), // keep the bytes which are not valid UTF-8 instead of rejecting the whole document
 		GlobalStore(frontMatterKey, true),
 		GlobalStore(documentHeaderKey, true),
 		GlobalStore(usermacrosKey, config.Macros),
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index f85dc3e..3dab115 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -379,7 +379,7 @@ func readWithinLines(scanner *bufio.Scanner, content *strings.Builder, lineRange
 	for scanner.Scan() {
 		line++
 		// parse the line in search for the `tag::<tag>[]` or `end:<tag>[]` macros
-		l, err := Parse("", scanner.Bytes(), Entrypoint("IncludedFileLine"))
+		l, err := Parse("", scanner.Bytes(), Entrypoint("IncludedFileLine"), AllowInvalidUTF8(true))
 		if err != nil {
 			return err
 		}
@@ -412,7 +412,7 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 		lineNumber++
 		line := scanner.Bytes()
 		// parse the line in search for the `tag::<tag>[]` or `end:<tag>[]` macros
-		l, err := Parse("", line, Entrypoint("IncludedFileLine"))
+		l, err := Parse("", line, Entrypoint("IncludedFileLine"), AllowInvalidUTF8(true))
 		if err != nil {
 			return err
 		}
@@ -465,7 +465,7 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 func readAll(scanner *bufio.Scanner, content *strings.Builder) error {
 	for scanner.Scan() {
 		// parse the line in search for the `tag::<tag>[]` or `end:<tag>[]` macros
-		l, err := Parse("", scanner.Bytes(), Entrypoint("IncludedFileLine"))
+		l, err := Parse("", scanner.Bytes(), Entrypoint("IncludedFileLine"), AllowInvalidUTF8(true))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9233729ba88c3149f0290370c1978550b8d1a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 42/76] fix: do not stop at lines made of no-break spaces

---
 pkg/parser/parser.go  | 12 ++++++------
 pkg/parser/parser.peg |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index e9228bc..0a05a76 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -51569,7 +51569,7 @@ func (p *parser) callonDocumentFragment692() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment695(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
@@ -65284,7 +65284,7 @@ func (p *parser) callonListContinuationElement913() (interface{}, error) {
 }
 
 func (c *current) onListContinuationElement916(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
@@ -67953,7 +67953,7 @@ func (p *parser) callonShortcutParagraph51() (interface{}, error) {
 }
 
 func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
@@ -68535,7 +68535,7 @@ func (p *parser) callonShortcutParagraph298() (interface{}, error) {
 }
 
 func (c *current) onShortcutParagraph301(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
@@ -68727,7 +68727,7 @@ func (p *parser) callonParagraph42() (interface{}, error) {
 }
 
 func (c *current) onParagraph45(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
@@ -68840,7 +68840,7 @@ func (p *parser) callonParagraph100() (interface{}, error) {
 }
 
 func (c *current) onParagraph103(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 77338f6..1fbef59 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1785,7 +1785,7 @@ Paragraph <-
 ParagraphRawLine <- 
     content:(ManyChars)
     &{
-        return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+        return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
     }
     EOL {
         return types.NewRawLine(content.(string))
-- 
2.43.0


From 4316e906701590f292be9da98b5697bf99b39c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 43/76] fix: keep the text which looks like a placeholder

---
 ...document_processing_apply_substitutions.go |  8 ++++-
 pkg/parser/parser.go                          | 36 +++++++++----------
 pkg/parser/parser.peg                         |  4 +--
 pkg/types/types.go                            | 13 ++++---
 4 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index bb5a139..d3d1342 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -780,7 +780,13 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
-			elements[i] = p.elements[e.Ref]
+			if element, found := p.elements[e.Ref]; found {
+				elements[i] = element
+			} else { // not a placeholder, but a text which looks the same
+				elements[i] = &types.StringElement{
+					Content: e.RawText,
+				}
+			}
 		case types.WithElements:
 			elmts, err := p.restore(e.GetElements())
 			if err != nil {
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 0a05a76..17acc30 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -49359,7 +49359,7 @@ func (p *parser) callonFileInclusion103() (interface{}, error) {
 }
 
 func (c *current) onFileInclusion99(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonFileInclusion99() (interface{}, error) {
@@ -53194,7 +53194,7 @@ func (p *parser) callonDelimitedBlockElements11() (interface{}, error) {
 }
 
 func (c *current) onDelimitedBlockElements7(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonDelimitedBlockElements7() (interface{}, error) {
@@ -53627,7 +53627,7 @@ func (p *parser) callonBlockAttributes23() (interface{}, error) {
 }
 
 func (c *current) onBlockAttributes19(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonBlockAttributes19() (interface{}, error) {
@@ -55823,7 +55823,7 @@ func (p *parser) callonExternalCrossReference100() (interface{}, error) {
 }
 
 func (c *current) onExternalCrossReference96(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonExternalCrossReference96() (interface{}, error) {
@@ -57524,7 +57524,7 @@ func (p *parser) callonIndexTermContent21() (interface{}, error) {
 }
 
 func (c *current) onIndexTermContent17(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonIndexTermContent17() (interface{}, error) {
@@ -57778,7 +57778,7 @@ func (p *parser) callonImageBlock110() (interface{}, error) {
 }
 
 func (c *current) onImageBlock106(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonImageBlock106() (interface{}, error) {
@@ -58080,7 +58080,7 @@ func (p *parser) callonInlineImage112() (interface{}, error) {
 }
 
 func (c *current) onInlineImage108(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonInlineImage108() (interface{}, error) {
@@ -58907,7 +58907,7 @@ func (p *parser) callonLink112() (interface{}, error) {
 }
 
 func (c *current) onLink108(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonLink108() (interface{}, error) {
@@ -59267,7 +59267,7 @@ func (p *parser) callonRelativeLink111() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink107(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonRelativeLink107() (interface{}, error) {
@@ -59545,7 +59545,7 @@ func (p *parser) callonRelativeLink228() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink224(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonRelativeLink224() (interface{}, error) {
@@ -59823,7 +59823,7 @@ func (p *parser) callonExternalLink112() (interface{}, error) {
 }
 
 func (c *current) onExternalLink108(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonExternalLink108() (interface{}, error) {
@@ -60101,7 +60101,7 @@ func (p *parser) callonExternalLink230() (interface{}, error) {
 }
 
 func (c *current) onExternalLink226(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonExternalLink226() (interface{}, error) {
@@ -69323,7 +69323,7 @@ func (p *parser) callonQuotedTextElement141() (interface{}, error) {
 }
 
 func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonQuotedTextElement137() (interface{}, error) {
@@ -70755,7 +70755,7 @@ func (p *parser) callonSectionTitleElement142() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement138(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement138() (interface{}, error) {
@@ -70798,7 +70798,7 @@ func (p *parser) callonSectionTitleElement165() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement161(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement161() (interface{}, error) {
@@ -71564,7 +71564,7 @@ func (p *parser) callonNormalGroup161() (interface{}, error) {
 }
 
 func (c *current) onNormalGroup157(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonNormalGroup157() (interface{}, error) {
@@ -71750,7 +71750,7 @@ func (p *parser) callonAttributeStructuredValueElement50() (interface{}, error)
 }
 
 func (c *current) onAttributeStructuredValueElement46(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
@@ -73115,7 +73115,7 @@ func (p *parser) callonFileLocation96() (interface{}, error) {
 }
 
 func (c *current) onFileLocation92(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
 func (p *parser) callonFileLocation92() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 1fbef59..97a8b6f 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1196,10 +1196,10 @@ DocumentRevisionRemark <- [^\r\r\n]+ {
 ElementPlaceHolderDelimiter <- "\uFFFD"
 
 ElementPlaceHolder <- ElementPlaceHolderDelimiter ref:([0-9]+ { return string(c.text), nil }) ElementPlaceHolderDelimiter {
-    return types.NewElementPlaceHolder(ref.(string))
+    return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-// -----------------------------------------------------------------------------------------------------------------------
+// -------------------------------------------------------------------------------------------------------
 // Explicit line breaks
 // -----------------------------------------------------------------------------------------------------------------------
 LineBreak <- 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 3bedc9b..04773dd 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3845,17 +3845,22 @@ func NewSymbol(name string) (*Symbol, error) {
 // during previous substitution, and which are substituted with a placeholder while
 // serializing the content to parse with the "macros" substitution
 type ElementPlaceHolder struct {
-	Ref string
+	Ref     string
+	RawText string
 }
 
-// NewElementPlaceHolder returns a new ElementPlaceHolder with the given reference.
-func NewElementPlaceHolder(ref string) (*ElementPlaceHolder, error) {
+// NewElementPlaceHolder returns a new ElementPlaceHolder with the given reference and raw text.
+func NewElementPlaceHolder(ref, rawText string) (*ElementPlaceHolder, error) {
 	return &ElementPlaceHolder{
-		Ref: ref,
+		Ref:     ref,
+		RawText: rawText,
 	}, nil
 }
 
 func (p *ElementPlaceHolder) String() string {
+	if p.RawText != "" {
+		return p.RawText
+	}
 	return "\uFFFD" + p.Ref + "\uFFFD"
 }
 
-- 
2.43.0


From 8e96698055106e32ec06ccef994bf3acbf022df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 44/76] fix: report errors while reading the document, support
 long lines

---
 pkg/parser/document_preprocessing.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 3dab115..8aa6406 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -30,7 +31,7 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 		enabled: true,
 	}
 	c := conditions{}
-	scanner := bufio.NewScanner(source)
+	scanner := newScanner(source)
 	t := newBlockDelimiterTracker()
 	for scanner.Scan() {
 		line := scanner.Bytes()
@@ -89,9 +90,19 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return "", errors.Wrap(err, "unable to read the document")
+	}
 	return b.String(), nil
 }
 
+// newScanner returns a new scanner of the lines of the given source, whatever their length
+func newScanner(source io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(source)
+	scanner.Buffer(nil, math.MaxInt)
+	return scanner
+}
+
 type blockDelimiterTracker struct {
 	stack []blockDelimiter
 }
@@ -242,7 +253,7 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 		return "", false, errors.Wrapf(err, "Unresolved directive in %s - %s", ctx.filename, incl.RawText)
 	}
 	result := &strings.Builder{}
-	scanner := bufio.NewScanner(bufio.NewReader(f))
+	scanner := newScanner(bufio.NewReader(f))
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("reading %s", filename)
 	}
-- 
2.43.0


From f993e80c529b188a3ccbb9b46d52c2bcf3915611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 45/76] fix: do not change the working directory to include
 files

---
 pkg/parser/document_preprocessing.go | 35 +++++-----------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 8aa6406..1e15f80 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -500,47 +500,24 @@ func readAll(scanner *bufio.Scanner, content *strings.Builder) error {
 	return nil
 }
 
+// open opens the file at the given path. Does not change the current directory, which is shared with the
+// other conversions (and with the rest of the process)
 func open(path string) (*os.File, string, func(), error) {
-	wd, err := os.Getwd()
-	if err != nil {
-		return nil, "", func() {}, err
-	}
 	absPath, err := filepath.Abs(path)
 	if err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, "", func() {}, err
 	}
 	dir := filepath.Dir(absPath)
-	// TODO: we could skip the Chdir part if we retain the absPath in the context,
-	// and use `filepath.Join` to compute the abspath of the file to include
-	if err = os.Chdir(dir); err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+	if _, err := os.Stat(dir); err != nil {
+		return nil, "", func() {}, errors.Wrapf(err, "chdir %s", dir)
 	}
 	// read the file per-se
 	// log.Debugf("opening '%s'", absPath)
 	f, err := os.Open(absPath)
 	if err != nil {
-		return nil, absPath, func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, absPath, func() {}, err
 	}
 	return f, absPath, func() {
-		log.Debugf("restoring current working dir to: %s", wd)
-		if err := os.Chdir(wd); err != nil { // restore the previous working directory
-			log.WithError(err).Error("failed to restore previous working directory")
-		}
 		if err := f.Close(); err != nil {
 			log.WithError(err).Errorf("failed to close file '%s'", absPath)
 		}
-- 
2.43.0


From 36a420993d3f63f0b4badf71c5b72b2b03820f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 46/76] fix: replace the attribute references within subscripts
 and superscripts

---
 pkg/parser/parser.go  | 4436 +++++++++++++++++++++++++----------------
 pkg/parser/parser.peg |   12 +-
 2 files changed, 2750 insertions(+), 1698 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 17acc30..c1f4802 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -42583,8 +42583,8 @@ var g = &grammar{
 												pos: position{line: 2244, col: 5, offset: 72768},
 												expr: &charClassMatcher{
 													pos:        position{line: 2244, col: 5, offset: 72768},
-													val:        "[^\\r\\n ~<>&]",
-													chars:      []rune{'\r', '\n', ' ', '~', '<', '>', '&'},
+													val:        "[^\\r\\n ~<>&{\\\\]",
+													chars:      []rune{'\r', '\n', ' ', '~', '<', '>', '&', '{', '\\'},
 													ignoreCase: false,
 													inverted:   true,
 												},
@@ -42619,164 +42619,856 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2248, col: 7, offset: 72846},
+											pos: position{line: 636, col: 5, offset: 20153},
 											run: (*parser).callonSubscriptTextElement16,
-											expr: &charClassMatcher{
-												pos:        position{line: 2248, col: 7, offset: 72846},
-												val:        "[<>&]",
-												chars:      []rune{'<', '>', '&'},
-												ignoreCase: false,
-												inverted:   false,
-											},
-										},
-									},
-								},
-							},
-						},
-					},
-				},
-			},
-		},
-		{
-			name: "EscapedSubscriptText",
-			pos:  position{line: 2252, col: 1, offset: 72945},
-			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73012},
-				run: (*parser).callonEscapedSubscriptText1,
-				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73012},
-					exprs: []interface{}{
-						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73012},
-							label: "backslashes",
-							expr: &actionExpr{
-								pos: position{line: 1843, col: 25, offset: 59561},
-								run: (*parser).callonEscapedSubscriptText4,
-								expr: &oneOrMoreExpr{
-									pos: position{line: 1843, col: 25, offset: 59561},
-									expr: &litMatcher{
-										pos:        position{line: 1843, col: 25, offset: 59561},
-										val:        "\\",
-										ignoreCase: false,
-										want:       "\"\\\\\"",
-									},
-								},
-							},
-						},
-						&litMatcher{
-							pos:        position{line: 2235, col: 27, offset: 72544},
-							val:        "~",
-							ignoreCase: false,
-							want:       "\"~\"",
-						},
-						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73080},
-							label: "element",
-							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73089},
-								name: "SubscriptTextElement",
-							},
-						},
-						&litMatcher{
-							pos:        position{line: 2235, col: 27, offset: 72544},
-							val:        "~",
-							ignoreCase: false,
-							want:       "\"~\"",
-						},
-					},
-				},
-			},
-		},
-		{
-			name: "SuperscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73352},
-			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73376},
-				run: (*parser).callonSuperscriptText1,
-				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73376},
-					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73603},
-							val:        "^",
-							ignoreCase: false,
-							want:       "\"^\"",
-						},
-						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73406},
-							label: "element",
-							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73415},
-								name: "SuperscriptTextElement",
-							},
-						},
-						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73603},
-							val:        "^",
-							ignoreCase: false,
-							want:       "\"^\"",
-						},
-					},
-				},
-			},
-		},
-		{
-			name: "SuperscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73608},
-			expr: &choiceExpr{
-				pos: position{line: 2273, col: 27, offset: 73634},
-				alternatives: []interface{}{
-					&ruleRefExpr{
-						pos:  position{line: 2273, col: 27, offset: 73634},
-						name: "QuotedText",
-					},
-					&actionExpr{
-						pos: position{line: 2275, col: 23, offset: 73690},
-						run: (*parser).callonSuperscriptTextElement3,
-						expr: &labeledExpr{
-							pos:   position{line: 2275, col: 23, offset: 73690},
-							label: "elements",
-							expr: &oneOrMoreExpr{
-								pos: position{line: 2275, col: 32, offset: 73699},
-								expr: &choiceExpr{
-									pos: position{line: 2280, col: 5, offset: 73837},
-									alternatives: []interface{}{
-										&actionExpr{
-											pos: position{line: 2280, col: 5, offset: 73837},
-											run: (*parser).callonSuperscriptTextElement7,
-											expr: &oneOrMoreExpr{
-												pos: position{line: 2280, col: 5, offset: 73837},
-												expr: &charClassMatcher{
-													pos:        position{line: 2280, col: 5, offset: 73837},
-													val:        "[^\\r\\n ^<>&]",
-													chars:      []rune{'\r', '\n', ' ', '^', '<', '>', '&'},
-													ignoreCase: false,
-													inverted:   true,
-												},
-											},
-										},
-										&actionExpr{
-											pos: position{line: 2469, col: 5, offset: 79438},
-											run: (*parser).callonSuperscriptTextElement10,
 											expr: &seqExpr{
-												pos: position{line: 2469, col: 5, offset: 79438},
+												pos: position{line: 636, col: 5, offset: 20153},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2469, col: 5, offset: 79438},
-														run: (*parser).callonSuperscriptTextElement12,
+														pos: position{line: 636, col: 5, offset: 20153},
+														run: (*parser).callonSubscriptTextElement18,
 													},
 													&labeledExpr{
-														pos:   position{line: 2472, col: 5, offset: 79514},
+														pos:   position{line: 639, col: 5, offset: 20225},
 														label: "element",
-														expr: &actionExpr{
-															pos: position{line: 2473, col: 9, offset: 79532},
-															run: (*parser).callonSuperscriptTextElement14,
-															expr: &charClassMatcher{
-																pos:        position{line: 2473, col: 10, offset: 79533},
-																val:        "[<>&]",
-																chars:      []rune{'<', '>', '&'},
-																ignoreCase: false,
-																inverted:   false,
+														expr: &choiceExpr{
+															pos: position{line: 639, col: 14, offset: 20234},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 645, col: 5, offset: 20363},
+																	run: (*parser).callonSubscriptTextElement21,
+																	expr: &seqExpr{
+																		pos: position{line: 645, col: 5, offset: 20363},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 645, col: 5, offset: 20363},
+																				val:        "\\{",
+																				ignoreCase: false,
+																				want:       "\"\\\\{\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 645, col: 13, offset: 20371},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSubscriptTextElement25,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 645, col: 32, offset: 20390},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 652, col: 5, offset: 20631},
+																	run: (*parser).callonSubscriptTextElement31,
+																	expr: &seqExpr{
+																		pos: position{line: 652, col: 5, offset: 20631},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 652, col: 5, offset: 20631},
+																				val:        "{",
+																				ignoreCase: false,
+																				want:       "\"{\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 652, col: 9, offset: 20635},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSubscriptTextElement35,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 652, col: 28, offset: 20654},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 658, col: 25, offset: 20835},
+																	run: (*parser).callonSubscriptTextElement41,
+																	expr: &seqExpr{
+																		pos: position{line: 658, col: 25, offset: 20835},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 658, col: 25, offset: 20835},
+																				val:        "{counter:",
+																				ignoreCase: false,
+																				want:       "\"{counter:\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 658, col: 37, offset: 20847},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSubscriptTextElement45,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 658, col: 56, offset: 20866},
+																				label: "start",
+																				expr: &zeroOrOneExpr{
+																					pos: position{line: 658, col: 62, offset: 20872},
+																					expr: &actionExpr{
+																						pos: position{line: 666, col: 17, offset: 21167},
+																						run: (*parser).callonSubscriptTextElement52,
+																						expr: &seqExpr{
+																							pos: position{line: 666, col: 17, offset: 21167},
+																							exprs: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 666, col: 17, offset: 21167},
+																									val:        ":",
+																									ignoreCase: false,
+																									want:       "\":\"",
+																								},
+																								&labeledExpr{
+																									pos:   position{line: 666, col: 21, offset: 21171},
+																									label: "start",
+																									expr: &choiceExpr{
+																										pos: position{line: 666, col: 28, offset: 21178},
+																										alternatives: []interface{}{
+																											&actionExpr{
+																												pos: position{line: 666, col: 28, offset: 21178},
+																												run: (*parser).callonSubscriptTextElement57,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 666, col: 28, offset: 21178},
+																													val:        "[A-Za-z]",
+																													ranges:     []rune{'A', 'Z', 'a', 'z'},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																											&actionExpr{
+																												pos: position{line: 668, col: 9, offset: 21232},
+																												run: (*parser).callonSubscriptTextElement59,
+																												expr: &oneOrMoreExpr{
+																													pos: position{line: 668, col: 9, offset: 21232},
+																													expr: &charClassMatcher{
+																														pos:        position{line: 668, col: 9, offset: 21232},
+																														val:        "[0-9]",
+																														ranges:     []rune{'0', '9'},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 658, col: 78, offset: 20888},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 662, col: 25, offset: 21006},
+																	run: (*parser).callonSubscriptTextElement63,
+																	expr: &seqExpr{
+																		pos: position{line: 662, col: 25, offset: 21006},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 662, col: 25, offset: 21006},
+																				val:        "{counter2:",
+																				ignoreCase: false,
+																				want:       "\"{counter2:\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 662, col: 38, offset: 21019},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSubscriptTextElement67,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 662, col: 57, offset: 21038},
+																				label: "start",
+																				expr: &zeroOrOneExpr{
+																					pos: position{line: 662, col: 63, offset: 21044},
+																					expr: &actionExpr{
+																						pos: position{line: 666, col: 17, offset: 21167},
+																						run: (*parser).callonSubscriptTextElement74,
+																						expr: &seqExpr{
+																							pos: position{line: 666, col: 17, offset: 21167},
+																							exprs: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 666, col: 17, offset: 21167},
+																									val:        ":",
+																									ignoreCase: false,
+																									want:       "\":\"",
+																								},
+																								&labeledExpr{
+																									pos:   position{line: 666, col: 21, offset: 21171},
+																									label: "start",
+																									expr: &choiceExpr{
+																										pos: position{line: 666, col: 28, offset: 21178},
+																										alternatives: []interface{}{
+																											&actionExpr{
+																												pos: position{line: 666, col: 28, offset: 21178},
+																												run: (*parser).callonSubscriptTextElement79,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 666, col: 28, offset: 21178},
+																													val:        "[A-Za-z]",
+																													ranges:     []rune{'A', 'Z', 'a', 'z'},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																											&actionExpr{
+																												pos: position{line: 668, col: 9, offset: 21232},
+																												run: (*parser).callonSubscriptTextElement81,
+																												expr: &oneOrMoreExpr{
+																													pos: position{line: 668, col: 9, offset: 21232},
+																													expr: &charClassMatcher{
+																														pos:        position{line: 668, col: 9, offset: 21232},
+																														val:        "[0-9]",
+																														ranges:     []rune{'0', '9'},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 662, col: 79, offset: 21060},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2248, col: 7, offset: 72870},
+											run: (*parser).callonSubscriptTextElement85,
+											expr: &charClassMatcher{
+												pos:        position{line: 2248, col: 7, offset: 72870},
+												val:        "[<>&{\\\\]",
+												chars:      []rune{'<', '>', '&', '{', '\\'},
+												ignoreCase: false,
+												inverted:   false,
+											},
+										},
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "EscapedSubscriptText",
+			pos:  position{line: 2252, col: 1, offset: 72945},
+			expr: &actionExpr{
+				pos: position{line: 2254, col: 5, offset: 73012},
+				run: (*parser).callonEscapedSubscriptText1,
+				expr: &seqExpr{
+					pos: position{line: 2254, col: 5, offset: 73012},
+					exprs: []interface{}{
+						&labeledExpr{
+							pos:   position{line: 2254, col: 5, offset: 73012},
+							label: "backslashes",
+							expr: &actionExpr{
+								pos: position{line: 1843, col: 25, offset: 59561},
+								run: (*parser).callonEscapedSubscriptText4,
+								expr: &oneOrMoreExpr{
+									pos: position{line: 1843, col: 25, offset: 59561},
+									expr: &litMatcher{
+										pos:        position{line: 1843, col: 25, offset: 59561},
+										val:        "\\",
+										ignoreCase: false,
+										want:       "\"\\\\\"",
+									},
+								},
+							},
+						},
+						&litMatcher{
+							pos:        position{line: 2235, col: 27, offset: 72544},
+							val:        "~",
+							ignoreCase: false,
+							want:       "\"~\"",
+						},
+						&labeledExpr{
+							pos:   position{line: 2256, col: 5, offset: 73080},
+							label: "element",
+							expr: &ruleRefExpr{
+								pos:  position{line: 2256, col: 14, offset: 73089},
+								name: "SubscriptTextElement",
+							},
+						},
+						&litMatcher{
+							pos:        position{line: 2235, col: 27, offset: 72544},
+							val:        "~",
+							ignoreCase: false,
+							want:       "\"~\"",
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "SuperscriptText",
+			pos:  position{line: 2264, col: 1, offset: 73352},
+			expr: &actionExpr{
+				pos: position{line: 2265, col: 5, offset: 73376},
+				run: (*parser).callonSuperscriptText1,
+				expr: &seqExpr{
+					pos: position{line: 2265, col: 5, offset: 73376},
+					exprs: []interface{}{
+						&litMatcher{
+							pos:        position{line: 2271, col: 29, offset: 73603},
+							val:        "^",
+							ignoreCase: false,
+							want:       "\"^\"",
+						},
+						&labeledExpr{
+							pos:   position{line: 2266, col: 5, offset: 73406},
+							label: "element",
+							expr: &ruleRefExpr{
+								pos:  position{line: 2266, col: 14, offset: 73415},
+								name: "SuperscriptTextElement",
+							},
+						},
+						&litMatcher{
+							pos:        position{line: 2271, col: 29, offset: 73603},
+							val:        "^",
+							ignoreCase: false,
+							want:       "\"^\"",
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "SuperscriptTextElement",
+			pos:  position{line: 2273, col: 1, offset: 73608},
+			expr: &choiceExpr{
+				pos: position{line: 2273, col: 27, offset: 73634},
+				alternatives: []interface{}{
+					&ruleRefExpr{
+						pos:  position{line: 2273, col: 27, offset: 73634},
+						name: "QuotedText",
+					},
+					&actionExpr{
+						pos: position{line: 2275, col: 23, offset: 73690},
+						run: (*parser).callonSuperscriptTextElement3,
+						expr: &labeledExpr{
+							pos:   position{line: 2275, col: 23, offset: 73690},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2275, col: 32, offset: 73699},
+								expr: &choiceExpr{
+									pos: position{line: 2280, col: 5, offset: 73837},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2280, col: 5, offset: 73837},
+											run: (*parser).callonSuperscriptTextElement7,
+											expr: &oneOrMoreExpr{
+												pos: position{line: 2280, col: 5, offset: 73837},
+												expr: &charClassMatcher{
+													pos:        position{line: 2280, col: 5, offset: 73837},
+													val:        "[^\\r\\n ^<>&{\\\\]",
+													chars:      []rune{'\r', '\n', ' ', '^', '<', '>', '&', '{', '\\'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 2469, col: 5, offset: 79438},
+											run: (*parser).callonSuperscriptTextElement10,
+											expr: &seqExpr{
+												pos: position{line: 2469, col: 5, offset: 79438},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2469, col: 5, offset: 79438},
+														run: (*parser).callonSuperscriptTextElement12,
+													},
+													&labeledExpr{
+														pos:   position{line: 2472, col: 5, offset: 79514},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2473, col: 9, offset: 79532},
+															run: (*parser).callonSuperscriptTextElement14,
+															expr: &charClassMatcher{
+																pos:        position{line: 2473, col: 10, offset: 79533},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 636, col: 5, offset: 20153},
+											run: (*parser).callonSuperscriptTextElement16,
+											expr: &seqExpr{
+												pos: position{line: 636, col: 5, offset: 20153},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 636, col: 5, offset: 20153},
+														run: (*parser).callonSuperscriptTextElement18,
+													},
+													&labeledExpr{
+														pos:   position{line: 639, col: 5, offset: 20225},
+														label: "element",
+														expr: &choiceExpr{
+															pos: position{line: 639, col: 14, offset: 20234},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 645, col: 5, offset: 20363},
+																	run: (*parser).callonSuperscriptTextElement21,
+																	expr: &seqExpr{
+																		pos: position{line: 645, col: 5, offset: 20363},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 645, col: 5, offset: 20363},
+																				val:        "\\{",
+																				ignoreCase: false,
+																				want:       "\"\\\\{\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 645, col: 13, offset: 20371},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSuperscriptTextElement25,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 645, col: 32, offset: 20390},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 652, col: 5, offset: 20631},
+																	run: (*parser).callonSuperscriptTextElement31,
+																	expr: &seqExpr{
+																		pos: position{line: 652, col: 5, offset: 20631},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 652, col: 5, offset: 20631},
+																				val:        "{",
+																				ignoreCase: false,
+																				want:       "\"{\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 652, col: 9, offset: 20635},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSuperscriptTextElement35,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 652, col: 28, offset: 20654},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 658, col: 25, offset: 20835},
+																	run: (*parser).callonSuperscriptTextElement41,
+																	expr: &seqExpr{
+																		pos: position{line: 658, col: 25, offset: 20835},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 658, col: 25, offset: 20835},
+																				val:        "{counter:",
+																				ignoreCase: false,
+																				want:       "\"{counter:\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 658, col: 37, offset: 20847},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSuperscriptTextElement45,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 658, col: 56, offset: 20866},
+																				label: "start",
+																				expr: &zeroOrOneExpr{
+																					pos: position{line: 658, col: 62, offset: 20872},
+																					expr: &actionExpr{
+																						pos: position{line: 666, col: 17, offset: 21167},
+																						run: (*parser).callonSuperscriptTextElement52,
+																						expr: &seqExpr{
+																							pos: position{line: 666, col: 17, offset: 21167},
+																							exprs: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 666, col: 17, offset: 21167},
+																									val:        ":",
+																									ignoreCase: false,
+																									want:       "\":\"",
+																								},
+																								&labeledExpr{
+																									pos:   position{line: 666, col: 21, offset: 21171},
+																									label: "start",
+																									expr: &choiceExpr{
+																										pos: position{line: 666, col: 28, offset: 21178},
+																										alternatives: []interface{}{
+																											&actionExpr{
+																												pos: position{line: 666, col: 28, offset: 21178},
+																												run: (*parser).callonSuperscriptTextElement57,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 666, col: 28, offset: 21178},
+																													val:        "[A-Za-z]",
+																													ranges:     []rune{'A', 'Z', 'a', 'z'},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																											&actionExpr{
+																												pos: position{line: 668, col: 9, offset: 21232},
+																												run: (*parser).callonSuperscriptTextElement59,
+																												expr: &oneOrMoreExpr{
+																													pos: position{line: 668, col: 9, offset: 21232},
+																													expr: &charClassMatcher{
+																														pos:        position{line: 668, col: 9, offset: 21232},
+																														val:        "[0-9]",
+																														ranges:     []rune{'0', '9'},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 658, col: 78, offset: 20888},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 662, col: 25, offset: 21006},
+																	run: (*parser).callonSuperscriptTextElement63,
+																	expr: &seqExpr{
+																		pos: position{line: 662, col: 25, offset: 21006},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 662, col: 25, offset: 21006},
+																				val:        "{counter2:",
+																				ignoreCase: false,
+																				want:       "\"{counter2:\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 662, col: 38, offset: 21019},
+																				label: "name",
+																				expr: &actionExpr{
+																					pos: position{line: 318, col: 18, offset: 9780},
+																					run: (*parser).callonSuperscriptTextElement67,
+																					expr: &seqExpr{
+																						pos: position{line: 318, col: 18, offset: 9780},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 318, col: 18, offset: 9780},
+																								val:        "[_\\pL\\pN]",
+																								chars:      []rune{'_'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 318, col: 28, offset: 9790},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 318, col: 29, offset: 9791},
+																									val:        "[-\\pL\\pN]",
+																									chars:      []rune{'-'},
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 662, col: 57, offset: 21038},
+																				label: "start",
+																				expr: &zeroOrOneExpr{
+																					pos: position{line: 662, col: 63, offset: 21044},
+																					expr: &actionExpr{
+																						pos: position{line: 666, col: 17, offset: 21167},
+																						run: (*parser).callonSuperscriptTextElement74,
+																						expr: &seqExpr{
+																							pos: position{line: 666, col: 17, offset: 21167},
+																							exprs: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 666, col: 17, offset: 21167},
+																									val:        ":",
+																									ignoreCase: false,
+																									want:       "\":\"",
+																								},
+																								&labeledExpr{
+																									pos:   position{line: 666, col: 21, offset: 21171},
+																									label: "start",
+																									expr: &choiceExpr{
+																										pos: position{line: 666, col: 28, offset: 21178},
+																										alternatives: []interface{}{
+																											&actionExpr{
+																												pos: position{line: 666, col: 28, offset: 21178},
+																												run: (*parser).callonSuperscriptTextElement79,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 666, col: 28, offset: 21178},
+																													val:        "[A-Za-z]",
+																													ranges:     []rune{'A', 'Z', 'a', 'z'},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																											&actionExpr{
+																												pos: position{line: 668, col: 9, offset: 21232},
+																												run: (*parser).callonSuperscriptTextElement81,
+																												expr: &oneOrMoreExpr{
+																													pos: position{line: 668, col: 9, offset: 21232},
+																													expr: &charClassMatcher{
+																														pos:        position{line: 668, col: 9, offset: 21232},
+																														val:        "[0-9]",
+																														ranges:     []rune{'0', '9'},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 662, col: 79, offset: 21060},
+																				val:        "}",
+																				ignoreCase: false,
+																				want:       "\"}\"",
+																			},
+																		},
+																	},
+																},
 															},
 														},
 													},
@@ -42784,12 +43476,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2284, col: 7, offset: 73915},
-											run: (*parser).callonSuperscriptTextElement16,
+											pos: position{line: 2284, col: 7, offset: 73939},
+											run: (*parser).callonSuperscriptTextElement85,
 											expr: &charClassMatcher{
-												pos:        position{line: 2284, col: 7, offset: 73915},
-												val:        "[<>&]",
-												chars:      []rune{'<', '>', '&'},
+												pos:        position{line: 2284, col: 7, offset: 73939},
+												val:        "[<>&{\\\\]",
+												chars:      []rune{'<', '>', '&', '{', '\\'},
 												ignoreCase: false,
 												inverted:   false,
 											},
@@ -66143,4109 +66835,4469 @@ func (c *current) onListContinuationElement1225(line interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1225(stack["line"])
+}
+
+func (c *current) onListContinuationElement1278() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1278()
+}
+
+func (c *current) onListContinuationElement1284() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1284() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1284()
+}
+
+func (c *current) onListContinuationElement1287() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1287() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1287()
+}
+
+func (c *current) onListContinuationElement1275(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement1275() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1275(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement1294(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement1294() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1294(stack["end"])
+}
+
+func (c *current) onListContinuationElement1200(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+
+}
+
+func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1200(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onListContinuationElement1308() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1308() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1308()
+}
+
+func (c *current) onListContinuationElement1311() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1311() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1311()
+}
+
+func (c *current) onListContinuationElement1319() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1319() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1319()
+}
+
+func (c *current) onListContinuationElement1297() (interface{}, error) {
+
+	return types.NewThematicBreak()
+
+}
+
+func (p *parser) callonListContinuationElement1297() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1297()
+}
+
+func (c *current) onListContinuationElement1331() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1331() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1331()
+}
+
+func (c *current) onListContinuationElement1334() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1334() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1334()
+}
+
+func (c *current) onListContinuationElement1349() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1349() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1349()
+}
+
+func (c *current) onListContinuationElement1352() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1352()
+}
+
+func (c *current) onListContinuationElement1344() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonListContinuationElement1344() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1344()
+}
+
+func (c *current) onListContinuationElement1366() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1366() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1366()
+}
+
+func (c *current) onListContinuationElement1369() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1369() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1369()
+}
+
+func (c *current) onListContinuationElement1391() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1391()
+}
+
+func (c *current) onListContinuationElement1396() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1396() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1396()
+}
+
+func (c *current) onListContinuationElement1394(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1394(stack["content"])
+}
+
+func (c *current) onListContinuationElement1387(content interface{}) (interface{}, error) {
+	return types.NewInlineTableCell(content.(*types.RawLine))
+
+}
+
+func (p *parser) callonListContinuationElement1387() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1387(stack["content"])
+}
+
+func (c *current) onListContinuationElement1400() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["line"])
+	return p.cur.onListContinuationElement1400()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
-	// sequence of 4 "*" chars or more
-	return string(c.text), nil
+func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
 
+	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1383(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1284() (interface{}, error) {
+func (c *current) onListContinuationElement1417() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1284() (interface{}, error) {
+func (p *parser) callonListContinuationElement1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1284()
+	return p.cur.onListContinuationElement1417()
 }
 
-func (c *current) onListContinuationElement1287() (interface{}, error) {
+func (c *current) onListContinuationElement1420() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1287() (interface{}, error) {
+func (p *parser) callonListContinuationElement1420() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1287()
+	return p.cur.onListContinuationElement1420()
 }
 
-func (c *current) onListContinuationElement1275(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1435() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1275() (interface{}, error) {
+func (p *parser) callonListContinuationElement1435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1275(stack["delimiter"])
+	return p.cur.onListContinuationElement1435()
 }
 
-func (c *current) onListContinuationElement1294(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
+func (c *current) onListContinuationElement1438() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1294() (bool, error) {
+func (p *parser) callonListContinuationElement1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1294(stack["end"])
+	return p.cur.onListContinuationElement1438()
 }
 
-func (c *current) onListContinuationElement1200(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+func (c *current) onListContinuationElement1430() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1430() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1430()
 }
 
-func (c *current) onListContinuationElement1308() (interface{}, error) {
-
+func (c *current) onListContinuationElement1447() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1308() (interface{}, error) {
+func (p *parser) callonListContinuationElement1447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1308()
+	return p.cur.onListContinuationElement1447()
 }
 
-func (c *current) onListContinuationElement1311() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1452() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1311() (interface{}, error) {
+func (p *parser) callonListContinuationElement1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1311()
+	return p.cur.onListContinuationElement1452()
 }
 
-func (c *current) onListContinuationElement1319() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1319() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1319()
-}
-
-func (c *current) onListContinuationElement1297() (interface{}, error) {
-
-	return types.NewThematicBreak()
-
-}
-
-func (p *parser) callonListContinuationElement1297() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1297()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1331() (interface{}, error) {
+func (c *current) onListContinuationElement1469() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1331() (interface{}, error) {
+func (p *parser) callonListContinuationElement1469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1331()
+	return p.cur.onListContinuationElement1469()
 }
 
-func (c *current) onListContinuationElement1334() (interface{}, error) {
+func (c *current) onListContinuationElement1472() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1334() (interface{}, error) {
+func (p *parser) callonListContinuationElement1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1334()
+	return p.cur.onListContinuationElement1472()
 }
 
-func (c *current) onListContinuationElement1349() (interface{}, error) {
+func (c *current) onListContinuationElement1487() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1349() (interface{}, error) {
+func (p *parser) callonListContinuationElement1487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1349()
+	return p.cur.onListContinuationElement1487()
 }
 
-func (c *current) onListContinuationElement1352() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1352() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1352()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1344() (interface{}, error) {
+func (c *current) onListContinuationElement1482() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1344() (interface{}, error) {
+func (p *parser) callonListContinuationElement1482() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1344()
+	return p.cur.onListContinuationElement1482()
 }
 
-func (c *current) onListContinuationElement1366() (interface{}, error) {
+func (c *current) onListContinuationElement1501() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1501() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1501()
+}
 
+func (c *current) onListContinuationElement1506() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1366() (interface{}, error) {
+func (p *parser) callonListContinuationElement1506() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1366()
+	return p.cur.onListContinuationElement1506()
 }
 
-func (c *current) onListContinuationElement1369() (interface{}, error) {
+func (c *current) onListContinuationElement1511() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1369() (interface{}, error) {
+func (p *parser) callonListContinuationElement1511() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1369()
+	return p.cur.onListContinuationElement1511()
 }
 
-func (c *current) onListContinuationElement1391() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1462(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1391() (interface{}, error) {
+func (p *parser) callonListContinuationElement1462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1391()
+	return p.cur.onListContinuationElement1462(stack["content"])
 }
 
-func (c *current) onListContinuationElement1396() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1410(format, content interface{}) (interface{}, error) {
+	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1396() (interface{}, error) {
+func (p *parser) callonListContinuationElement1410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1396()
+	return p.cur.onListContinuationElement1410(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1394(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1407(cells interface{}) (interface{}, error) {
+	return cells, nil
+}
 
+func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1407(stack["cells"])
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
+	return types.NewTableRow(cells.([]interface{}))
+
+}
+
+func (p *parser) callonListContinuationElement1380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394(stack["content"])
+	return p.cur.onListContinuationElement1380(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1387(content interface{}) (interface{}, error) {
-	return types.NewInlineTableCell(content.(*types.RawLine))
+func (c *current) onListContinuationElement1523() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1387() (interface{}, error) {
+func (p *parser) callonListContinuationElement1523() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1387(stack["content"])
+	return p.cur.onListContinuationElement1523()
 }
 
-func (c *current) onListContinuationElement1400() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1400() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1400()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1518() (interface{}, error) {
+	return types.NewBlankLine()
 
-	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1383() (interface{}, error) {
+func (p *parser) callonListContinuationElement1518() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1383(stack["cells"])
+	return p.cur.onListContinuationElement1518()
 }
 
-func (c *current) onListContinuationElement1417() (interface{}, error) {
+func (c *current) onListContinuationElement1359(content interface{}) (interface{}, error) {
+	return content, nil
+
+}
+
+func (p *parser) callonListContinuationElement1359() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1359(stack["content"])
+}
+
+func (c *current) onListContinuationElement1537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1417() (interface{}, error) {
+func (p *parser) callonListContinuationElement1537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1417()
+	return p.cur.onListContinuationElement1537()
 }
 
-func (c *current) onListContinuationElement1420() (interface{}, error) {
+func (c *current) onListContinuationElement1540() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1420() (interface{}, error) {
+func (p *parser) callonListContinuationElement1540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1420()
+	return p.cur.onListContinuationElement1540()
 }
 
-func (c *current) onListContinuationElement1435() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
+	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1435() (interface{}, error) {
+func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1435()
+	return p.cur.onListContinuationElement1327(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1438() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1555() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1438() (interface{}, error) {
+func (p *parser) callonListContinuationElement1555() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1438()
+	return p.cur.onListContinuationElement1555()
 }
 
-func (c *current) onListContinuationElement1430() (interface{}, error) {
-	return types.NewBlankLine()
-
+func (c *current) onListContinuationElement1559() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1430() (interface{}, error) {
+func (p *parser) callonListContinuationElement1559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1430()
+	return p.cur.onListContinuationElement1559()
 }
 
-func (c *current) onListContinuationElement1447() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1549(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
 }
 
-func (p *parser) callonListContinuationElement1447() (interface{}, error) {
+func (p *parser) callonListContinuationElement1549() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1447()
+	return p.cur.onListContinuationElement1549(stack["content"])
 }
 
-func (c *current) onListContinuationElement1452() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1572() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1452() (interface{}, error) {
+func (p *parser) callonListContinuationElement1572() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1452()
+	return p.cur.onListContinuationElement1572()
 }
 
-func (c *current) onListContinuationElement1455() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1575() (interface{}, error) {
+	return types.Tip, nil
+
 }
 
-func (p *parser) callonListContinuationElement1455() (interface{}, error) {
+func (p *parser) callonListContinuationElement1575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1455()
+	return p.cur.onListContinuationElement1575()
 }
 
-func (c *current) onListContinuationElement1469() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1577() (interface{}, error) {
+	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1469() (interface{}, error) {
+func (p *parser) callonListContinuationElement1577() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1469()
+	return p.cur.onListContinuationElement1577()
 }
 
-func (c *current) onListContinuationElement1472() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1579() (interface{}, error) {
+	return types.Important, nil
+
 }
 
-func (p *parser) callonListContinuationElement1472() (interface{}, error) {
+func (p *parser) callonListContinuationElement1579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1472()
+	return p.cur.onListContinuationElement1579()
 }
 
-func (c *current) onListContinuationElement1487() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1581() (interface{}, error) {
+	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1487() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1487()
+	return p.cur.onListContinuationElement1581()
 }
 
-func (c *current) onListContinuationElement1490() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1583() (interface{}, error) {
+	return types.Caution, nil
+
 }
 
-func (p *parser) callonListContinuationElement1490() (interface{}, error) {
+func (p *parser) callonListContinuationElement1583() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1490()
+	return p.cur.onListContinuationElement1583()
 }
 
-func (c *current) onListContinuationElement1482() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1587() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1482() (interface{}, error) {
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1482()
+	return p.cur.onListContinuationElement1587()
 }
 
-func (c *current) onListContinuationElement1501() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1585() (interface{}, error) {
+	// check
+	return types.LiteralParagraph, nil
+
 }
 
-func (p *parser) callonListContinuationElement1501() (interface{}, error) {
+func (p *parser) callonListContinuationElement1585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1501()
+	return p.cur.onListContinuationElement1585()
 }
 
-func (c *current) onListContinuationElement1506() (interface{}, error) {
+func (c *current) onListContinuationElement1593() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1506() (interface{}, error) {
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1506()
+	return p.cur.onListContinuationElement1593()
 }
 
-func (c *current) onListContinuationElement1511() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1511() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1511()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1462(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1570(style interface{}) (interface{}, error) {
+	// there must be some content on the line
+	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1462() (interface{}, error) {
+func (p *parser) callonListContinuationElement1570() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1462(stack["content"])
+	return p.cur.onListContinuationElement1570(stack["style"])
 }
 
-func (c *current) onListContinuationElement1410(format, content interface{}) (interface{}, error) {
-	return types.NewMultilineTableCell(content.([]interface{}), format)
+func (c *current) onListContinuationElement1612() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1410(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1407(cells interface{}) (interface{}, error) {
-	return cells, nil
+func (c *current) onListContinuationElement1615() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1407(stack["cells"])
+	return p.cur.onListContinuationElement1615()
 }
 
-func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
-	return types.NewTableRow(cells.([]interface{}))
+func (c *current) onListContinuationElement1607() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1380() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1380(stack["cells"])
+	return p.cur.onListContinuationElement1607()
 }
 
-func (c *current) onListContinuationElement1523() (interface{}, error) {
+func (c *current) onListContinuationElement1626() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1523() (interface{}, error) {
+func (p *parser) callonListContinuationElement1626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1523()
+	return p.cur.onListContinuationElement1626()
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
+func (c *current) onListContinuationElement1628() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1628() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1628()
 }
 
-func (c *current) onListContinuationElement1518() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1637() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1518() (interface{}, error) {
+func (p *parser) callonListContinuationElement1637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1518()
+	return p.cur.onListContinuationElement1637()
 }
 
-func (c *current) onListContinuationElement1359(content interface{}) (interface{}, error) {
-	return content, nil
+func (c *current) onListContinuationElement1644() (interface{}, error) {
+
+	// `.` is 1, etc.
+	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1359() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1359(stack["content"])
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1537() (interface{}, error) {
+func (c *current) onListContinuationElement1647(depth interface{}) (bool, error) {
 
-	return string(c.text), nil
+	// use a predicate to make sure that only `.` to `.....` are allowed
+	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1537() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1537()
+	return p.cur.onListContinuationElement1647(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1540() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1641(depth interface{}) (interface{}, error) {
+	switch depth.(int) {
+	case 1:
+		return types.NewOrderedListElementPrefix(types.Arabic)
+	case 2:
+		return types.NewOrderedListElementPrefix(types.LowerAlpha)
+	case 3:
+		return types.NewOrderedListElementPrefix(types.LowerRoman)
+	case 4:
+		return types.NewOrderedListElementPrefix(types.UpperAlpha)
+	default:
+		return types.NewOrderedListElementPrefix(types.UpperRoman)
+	}
+
 }
 
-func (p *parser) callonListContinuationElement1540() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1540()
+	return p.cur.onListContinuationElement1641(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
-	return types.NewTable(lines.([]interface{}))
+func (c *current) onListContinuationElement1648() (interface{}, error) {
+	// numbering style: "1.", etc.
+	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1327() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1327(stack["lines"])
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1555() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1653() (interface{}, error) {
+	// numbering style: "a.", etc.
+	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1555() (interface{}, error) {
+func (p *parser) callonListContinuationElement1653() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1555()
+	return p.cur.onListContinuationElement1653()
 }
 
-func (c *current) onListContinuationElement1559() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1657() (interface{}, error) {
+	// numbering style: "A.", etc.
+	return types.NewOrderedListElementPrefix(types.UpperAlpha)
+
 }
 
-func (p *parser) callonListContinuationElement1559() (interface{}, error) {
+func (p *parser) callonListContinuationElement1657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1559()
+	return p.cur.onListContinuationElement1657()
 }
 
-func (c *current) onListContinuationElement1549(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
+func (c *current) onListContinuationElement1661() (interface{}, error) {
+	// numbering style: "i)", etc.
+	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549(stack["content"])
+	return p.cur.onListContinuationElement1661()
 }
 
-func (c *current) onListContinuationElement1572() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
+func (c *current) onListContinuationElement1666() (interface{}, error) {
+	// numbering style: "I)", etc.
+	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1572() (bool, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1572()
+	return p.cur.onListContinuationElement1666()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
-	return types.Tip, nil
+func (c *current) onListContinuationElement1671(prefix interface{}) (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1671(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
-	return types.Note, nil
-
+func (c *current) onListContinuationElement1634(prefix interface{}) (interface{}, error) {
+	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1634(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
-	return types.Important, nil
+func (c *current) onListContinuationElement1678() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1678()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onListContinuationElement1681() (interface{}, error) {
+	// `-` or `*` to `*****`
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1681()
 }
 
-func (c *current) onListContinuationElement1583() (interface{}, error) {
-	return types.Caution, nil
+func (c *current) onListContinuationElement1686(style interface{}) (bool, error) {
+
+	// use a predicate to make sure that only `*` to `*****` are allowed
+	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1583() (interface{}, error) {
+func (p *parser) callonListContinuationElement1686() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1583()
+	return p.cur.onListContinuationElement1686(stack["style"])
 }
 
-func (c *current) onListContinuationElement1587() (interface{}, error) {
+func (c *current) onListContinuationElement1687(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1587() (interface{}, error) {
+func (p *parser) callonListContinuationElement1687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1587()
+	return p.cur.onListContinuationElement1687(stack["style"])
 }
 
-func (c *current) onListContinuationElement1585() (interface{}, error) {
-	// check
-	return types.LiteralParagraph, nil
+func (c *current) onListContinuationElement1675(style interface{}) (interface{}, error) {
+	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585()
+	return p.cur.onListContinuationElement1675(stack["style"])
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
-
-	return string(c.text), nil
-
+func (c *current) onListContinuationElement1695() (interface{}, error) {
+	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1695()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1699(ref interface{}) (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1699(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1570(style interface{}) (interface{}, error) {
-	// there must be some content on the line
-	return style, nil
+func (c *current) onListContinuationElement1691(ref interface{}) (interface{}, error) {
+	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1570() (interface{}, error) {
+func (p *parser) callonListContinuationElement1691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1570(stack["style"])
+	return p.cur.onListContinuationElement1691(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1717() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1717() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1717()
 }
 
-func (c *current) onListContinuationElement1615() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1720(separator interface{}) (bool, error) {
+
+	// use a predicate to make sure that separator is `::`, `:::` or `::::`
+	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
+
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1720() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615()
+	return p.cur.onListContinuationElement1720(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1714(separator interface{}) (interface{}, error) {
+	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1714() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1714(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1626() (interface{}, error) {
-
+func (c *current) onListContinuationElement1723() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1626() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1626()
+	return p.cur.onListContinuationElement1723()
 }
 
-func (c *current) onListContinuationElement1628() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1704() (interface{}, error) {
+	return types.NewRawLine(strings.TrimSpace(string(c.text)))
+
 }
 
-func (p *parser) callonListContinuationElement1628() (interface{}, error) {
+func (p *parser) callonListContinuationElement1704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628()
+	return p.cur.onListContinuationElement1704()
 }
 
-func (c *current) onListContinuationElement1637() (interface{}, error) {
+func (c *current) onListContinuationElement1734() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1637() (interface{}, error) {
+func (p *parser) callonListContinuationElement1734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1637()
+	return p.cur.onListContinuationElement1734()
 }
 
-func (c *current) onListContinuationElement1644() (interface{}, error) {
+func (c *current) onListContinuationElement1737(separator interface{}) (bool, error) {
 
-	// `.` is 1, etc.
-	return (len(c.text)), nil
+	// use a predicate to make sure that separator is `::`, `:::` or `::::`
+	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644()
+	return p.cur.onListContinuationElement1737(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1647(depth interface{}) (bool, error) {
-
-	// use a predicate to make sure that only `.` to `.....` are allowed
-	return depth.(int) <= 5, nil
+func (c *current) onListContinuationElement1731(separator interface{}) (interface{}, error) {
+	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1647() (bool, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647(stack["depth"])
+	return p.cur.onListContinuationElement1731(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1641(depth interface{}) (interface{}, error) {
-	switch depth.(int) {
-	case 1:
-		return types.NewOrderedListElementPrefix(types.Arabic)
-	case 2:
-		return types.NewOrderedListElementPrefix(types.LowerAlpha)
-	case 3:
-		return types.NewOrderedListElementPrefix(types.LowerRoman)
-	case 4:
-		return types.NewOrderedListElementPrefix(types.UpperAlpha)
-	default:
-		return types.NewOrderedListElementPrefix(types.UpperRoman)
-	}
+func (c *current) onListContinuationElement1748() (interface{}, error) {
+	// sequence of 4 "/" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1641() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641(stack["depth"])
+	return p.cur.onListContinuationElement1748()
 }
 
-func (c *current) onListContinuationElement1648() (interface{}, error) {
-	// numbering style: "1.", etc.
-	return types.NewOrderedListElementPrefix(types.Arabic)
+func (c *current) onListContinuationElement1754() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1648() (interface{}, error) {
+func (p *parser) callonListContinuationElement1754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1648()
+	return p.cur.onListContinuationElement1754()
 }
 
-func (c *current) onListContinuationElement1653() (interface{}, error) {
-	// numbering style: "a.", etc.
-	return types.NewOrderedListElementPrefix(types.LowerAlpha)
-
+func (c *current) onListContinuationElement1757() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1653() (interface{}, error) {
+func (p *parser) callonListContinuationElement1757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1653()
+	return p.cur.onListContinuationElement1757()
 }
 
-func (c *current) onListContinuationElement1657() (interface{}, error) {
-	// numbering style: "A.", etc.
-	return types.NewOrderedListElementPrefix(types.UpperAlpha)
+func (c *current) onListContinuationElement1745(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1657() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1657()
+	return p.cur.onListContinuationElement1745(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1661() (interface{}, error) {
-	// numbering style: "i)", etc.
-	return types.NewOrderedListElementPrefix(types.LowerRoman)
+func (c *current) onListContinuationElement1767() (interface{}, error) {
+	// sequence of 4 "=" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1661() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1661()
+	return p.cur.onListContinuationElement1767()
 }
 
-func (c *current) onListContinuationElement1666() (interface{}, error) {
-	// numbering style: "I)", etc.
-	return types.NewOrderedListElementPrefix(types.UpperRoman)
+func (c *current) onListContinuationElement1773() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1666() (interface{}, error) {
+func (p *parser) callonListContinuationElement1773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1666()
+	return p.cur.onListContinuationElement1773()
 }
 
-func (c *current) onListContinuationElement1671(prefix interface{}) (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onListContinuationElement1776() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1671() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1671(stack["prefix"])
+	return p.cur.onListContinuationElement1776()
 }
 
-func (c *current) onListContinuationElement1634(prefix interface{}) (interface{}, error) {
-	return prefix, nil
+func (c *current) onListContinuationElement1764(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1764() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634(stack["prefix"])
+	return p.cur.onListContinuationElement1764(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1678() (interface{}, error) {
-
+func (c *current) onListContinuationElement1787() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678()
+	return p.cur.onListContinuationElement1787()
 }
 
-func (c *current) onListContinuationElement1681() (interface{}, error) {
-	// `-` or `*` to `*****`
+func (c *current) onListContinuationElement1791() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681()
+	return p.cur.onListContinuationElement1791()
 }
 
-func (c *current) onListContinuationElement1686(style interface{}) (bool, error) {
-
-	// use a predicate to make sure that only `*` to `*****` are allowed
-	return len(style.(string)) <= 5, nil
-
+func (c *current) onListContinuationElement1794() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1686() (bool, error) {
+func (p *parser) callonListContinuationElement1794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1686(stack["style"])
+	return p.cur.onListContinuationElement1794()
 }
 
-func (c *current) onListContinuationElement1687(style interface{}) (interface{}, error) {
-	// log.Debug("matched multiple spaces")
-	return string(c.text), nil
-
+func (c *current) onListContinuationElement1783(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1687() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1687(stack["style"])
+	return p.cur.onListContinuationElement1783(stack["language"])
 }
 
-func (c *current) onListContinuationElement1675(style interface{}) (interface{}, error) {
-	return types.NewUnorderedListElementPrefix(style.(string))
+func (c *current) onListContinuationElement1804() (interface{}, error) {
+	// sequence of 3 "`" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1675() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1675(stack["style"])
+	return p.cur.onListContinuationElement1804()
 }
 
-func (c *current) onListContinuationElement1695() (interface{}, error) {
-	return strconv.Atoi(string(c.text))
+func (c *current) onListContinuationElement1810() (interface{}, error) {
+
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1695() (interface{}, error) {
+func (p *parser) callonListContinuationElement1810() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695()
+	return p.cur.onListContinuationElement1810()
 }
 
-func (c *current) onListContinuationElement1699(ref interface{}) (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onListContinuationElement1813() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1699() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1699(stack["ref"])
+	return p.cur.onListContinuationElement1813()
 }
 
-func (c *current) onListContinuationElement1691(ref interface{}) (interface{}, error) {
-	return ref, nil
+func (c *current) onListContinuationElement1801(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1691() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1691(stack["ref"])
+	return p.cur.onListContinuationElement1801(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1717() (interface{}, error) {
-
+func (c *current) onListContinuationElement1823() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1717() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1717()
+	return p.cur.onListContinuationElement1823()
 }
 
-func (c *current) onListContinuationElement1720(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1829() (interface{}, error) {
 
-	// use a predicate to make sure that separator is `::`, `:::` or `::::`
-	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1720() (bool, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["separator"])
+	return p.cur.onListContinuationElement1829()
 }
 
-func (c *current) onListContinuationElement1714(separator interface{}) (interface{}, error) {
-	return separator, nil
-
+func (c *current) onListContinuationElement1832() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["separator"])
+	return p.cur.onListContinuationElement1832()
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1820(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1820(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1704() (interface{}, error) {
-	return types.NewRawLine(strings.TrimSpace(string(c.text)))
+func (c *current) onListContinuationElement1842() (interface{}, error) {
+	// sequence of 4 "." chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1704() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1704()
+	return p.cur.onListContinuationElement1842()
 }
 
-func (c *current) onListContinuationElement1734() (interface{}, error) {
+func (c *current) onListContinuationElement1848() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1734() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734()
+	return p.cur.onListContinuationElement1848()
 }
 
-func (c *current) onListContinuationElement1737(separator interface{}) (bool, error) {
-
-	// use a predicate to make sure that separator is `::`, `:::` or `::::`
-	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
-
+func (c *current) onListContinuationElement1851() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1737() (bool, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737(stack["separator"])
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1731(separator interface{}) (interface{}, error) {
-	return separator, nil
+func (c *current) onListContinuationElement1839(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731(stack["separator"])
+	return p.cur.onListContinuationElement1839(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
-	// sequence of 4 "/" chars or more
+func (c *current) onListContinuationElement1861() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1861()
 }
 
-func (c *current) onListContinuationElement1754() (interface{}, error) {
+func (c *current) onListContinuationElement1867() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1754() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1754()
+	return p.cur.onListContinuationElement1867()
 }
 
-func (c *current) onListContinuationElement1757() (interface{}, error) {
+func (c *current) onListContinuationElement1870() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1757() (interface{}, error) {
+func (p *parser) callonListContinuationElement1870() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1757()
+	return p.cur.onListContinuationElement1870()
 }
 
-func (c *current) onListContinuationElement1745(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1858(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745(stack["delimiter"])
+	return p.cur.onListContinuationElement1858(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1767() (interface{}, error) {
-	// sequence of 4 "=" chars or more
+func (c *current) onListContinuationElement1880() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767()
+	return p.cur.onListContinuationElement1880()
 }
 
-func (c *current) onListContinuationElement1773() (interface{}, error) {
+func (c *current) onListContinuationElement1886() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1773() (interface{}, error) {
+func (p *parser) callonListContinuationElement1886() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1773()
+	return p.cur.onListContinuationElement1886()
 }
 
-func (c *current) onListContinuationElement1776() (interface{}, error) {
+func (c *current) onListContinuationElement1889() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1889() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776()
+	return p.cur.onListContinuationElement1889()
 }
 
-func (c *current) onListContinuationElement1764(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1877(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1764() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1764(stack["delimiter"])
+	return p.cur.onListContinuationElement1877(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1787() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onListContinuationElement1899() (interface{}, error) {
+	// sequence of 4 "*" chars or more
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1787() (interface{}, error) {
+func (p *parser) callonListContinuationElement1899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1787()
+	return p.cur.onListContinuationElement1899()
 }
 
-func (c *current) onListContinuationElement1791() (interface{}, error) {
+func (c *current) onListContinuationElement1905() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1791() (interface{}, error) {
+func (p *parser) callonListContinuationElement1905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1791()
+	return p.cur.onListContinuationElement1905()
 }
 
-func (c *current) onListContinuationElement1794() (interface{}, error) {
+func (c *current) onListContinuationElement1908() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1794() (interface{}, error) {
+func (p *parser) callonListContinuationElement1908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1794()
+	return p.cur.onListContinuationElement1908()
 }
 
-func (c *current) onListContinuationElement1783(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+func (c *current) onListContinuationElement1896(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783(stack["language"])
+	return p.cur.onListContinuationElement1896(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
-	// sequence of 3 "`" chars or more
-	return string(c.text), nil
+func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1739(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1810() (interface{}, error) {
+func (c *current) onListContinuationElement1916() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1810() (interface{}, error) {
+func (p *parser) callonListContinuationElement1916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1810()
+	return p.cur.onListContinuationElement1916()
 }
 
-func (c *current) onListContinuationElement1813() (interface{}, error) {
+func (c *current) onListContinuationElement1920() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1813()
-}
-
-func (c *current) onListContinuationElement1801(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801(stack["delimiter"])
+	return p.cur.onListContinuationElement1920()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
-	// sequence of 4 "-" chars or more
-	return string(c.text), nil
+func (c *current) onListContinuationElement1604(content interface{}) (interface{}, error) {
+	// do not retain the EOL chars
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
-}
-
-func (c *current) onListContinuationElement1829() (interface{}, error) {
+	return p.cur.onListContinuationElement1604(stack["content"])
+}
 
-	return string(c.text), nil
+func (c *current) onListContinuationElement1566(style, content interface{}) (interface{}, error) {
+	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1829() (interface{}, error) {
+func (p *parser) callonListContinuationElement1566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1829()
+	return p.cur.onListContinuationElement1566(stack["style"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1832() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
+	if element, ok := element.(types.WithAttributes); ok && attributes != nil {
+		element.AddAttributes(attributes.(types.Attributes))
+	}
+	return element, nil
+
 }
 
-func (p *parser) callonListContinuationElement1832() (interface{}, error) {
+func (p *parser) callonListContinuationElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1832()
+	return p.cur.onListContinuationElement1(stack["attributes"], stack["element"])
 }
 
-func (c *current) onListContinuationElement1820(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+func (c *current) onCallout3() (bool, error) {
+	return c.isSubstitutionEnabled(Callouts), nil
 
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonCallout3() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820(stack["delimiter"])
+	return p.cur.onCallout3()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
-	// sequence of 4 "." chars or more
-	return string(c.text), nil
-
+func (c *current) onCallout6() (interface{}, error) {
+	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonCallout6() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onCallout6()
 }
 
-func (c *current) onListContinuationElement1848() (interface{}, error) {
+func (c *current) onCallout11() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonCallout11() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848()
+	return p.cur.onCallout11()
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onCallout15() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonCallout15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onCallout15()
 }
 
-func (c *current) onListContinuationElement1839(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+func (c *current) onCallout1(ref interface{}) (interface{}, error) {
+	return types.NewCallout(ref.(int))
 
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonCallout1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839(stack["delimiter"])
+	return p.cur.onCallout1(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onShortcutParagraph9() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonShortcutParagraph9() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onShortcutParagraph9()
 }
 
-func (c *current) onListContinuationElement1867() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph16() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1867() (interface{}, error) {
+func (p *parser) callonShortcutParagraph16() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1867()
+	return p.cur.onShortcutParagraph16()
 }
 
-func (c *current) onListContinuationElement1870() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onShortcutParagraph19() (interface{}, error) {
+	return types.Tip, nil
+
 }
 
-func (p *parser) callonListContinuationElement1870() (interface{}, error) {
+func (p *parser) callonShortcutParagraph19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1870()
+	return p.cur.onShortcutParagraph19()
 }
 
-func (c *current) onListContinuationElement1858(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph21() (interface{}, error) {
+	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonShortcutParagraph21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858(stack["delimiter"])
+	return p.cur.onShortcutParagraph21()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
-	// sequence of 4 "_" chars or more
-	return string(c.text), nil
+func (c *current) onShortcutParagraph23() (interface{}, error) {
+	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonShortcutParagraph23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onShortcutParagraph23()
 }
 
-func (c *current) onListContinuationElement1886() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph25() (interface{}, error) {
+	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1886() (interface{}, error) {
+func (p *parser) callonShortcutParagraph25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1886()
+	return p.cur.onShortcutParagraph25()
 }
 
-func (c *current) onListContinuationElement1889() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onShortcutParagraph27() (interface{}, error) {
+	return types.Caution, nil
+
 }
 
-func (p *parser) callonListContinuationElement1889() (interface{}, error) {
+func (p *parser) callonShortcutParagraph27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1889()
+	return p.cur.onShortcutParagraph27()
 }
 
-func (c *current) onListContinuationElement1877(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph31() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonShortcutParagraph31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877(stack["delimiter"])
+	return p.cur.onShortcutParagraph31()
 }
 
-func (c *current) onListContinuationElement1899() (interface{}, error) {
-	// sequence of 4 "*" chars or more
-	return string(c.text), nil
+func (c *current) onShortcutParagraph29() (interface{}, error) {
+	// check
+	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1899() (interface{}, error) {
+func (p *parser) callonShortcutParagraph29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1899()
+	return p.cur.onShortcutParagraph29()
 }
 
-func (c *current) onListContinuationElement1905() (interface{}, error) {
+func (c *current) onShortcutParagraph37() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1905() (interface{}, error) {
+func (p *parser) callonShortcutParagraph37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1905()
+	return p.cur.onShortcutParagraph37()
 }
 
-func (c *current) onListContinuationElement1908() (interface{}, error) {
+func (c *current) onShortcutParagraph40() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1908() (interface{}, error) {
+func (p *parser) callonShortcutParagraph40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1908()
+	return p.cur.onShortcutParagraph40()
 }
 
-func (c *current) onListContinuationElement1896(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
+	// there must be some content on the line
+	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1896() (interface{}, error) {
+func (p *parser) callonShortcutParagraph14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1896(stack["delimiter"])
+	return p.cur.onShortcutParagraph14(stack["style"])
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
-	return delimiter, nil
+func (c *current) onShortcutParagraph51() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonShortcutParagraph51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onShortcutParagraph51()
 }
 
-func (c *current) onListContinuationElement1916() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonListContinuationElement1916() (interface{}, error) {
+func (p *parser) callonShortcutParagraph54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1916()
+	return p.cur.onShortcutParagraph54(stack["content"])
 }
 
-func (c *current) onListContinuationElement1920() (interface{}, error) {
+func (c *current) onShortcutParagraph56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1920() (interface{}, error) {
+func (p *parser) callonShortcutParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1920()
+	return p.cur.onShortcutParagraph56()
 }
 
-func (c *current) onListContinuationElement1604(content interface{}) (interface{}, error) {
-	// do not retain the EOL chars
+func (c *current) onShortcutParagraph48(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1604() (interface{}, error) {
+func (p *parser) callonShortcutParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1604(stack["content"])
+	return p.cur.onShortcutParagraph48(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566(style, content interface{}) (interface{}, error) {
-	return types.NewParagraph(style, content)
+func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, error) {
+	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
+	//   in the middle of the line (with space afterwards)
+	//   or at the end of the line
+	return !firstLine.(*types.RawLine).Contains(":: ") &&
+		!firstLine.(*types.RawLine).HasSuffix("::"), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (interface{}, error) {
+func (p *parser) callonShortcutParagraph63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566(stack["style"], stack["content"])
+	return p.cur.onShortcutParagraph63(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
-	if element, ok := element.(types.WithAttributes); ok && attributes != nil {
-		element.AddAttributes(attributes.(types.Attributes))
-	}
-	return element, nil
+func (c *current) onShortcutParagraph76() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1() (interface{}, error) {
+func (p *parser) callonShortcutParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1(stack["attributes"], stack["element"])
+	return p.cur.onShortcutParagraph76()
 }
 
-func (c *current) onCallout3() (bool, error) {
-	return c.isSubstitutionEnabled(Callouts), nil
+func (c *current) onShortcutParagraph79() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph79() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph79()
+}
+
+func (c *current) onShortcutParagraph71() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonCallout3() (bool, error) {
+func (p *parser) callonShortcutParagraph71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout3()
+	return p.cur.onShortcutParagraph71()
 }
 
-func (c *current) onCallout6() (interface{}, error) {
-	return strconv.Atoi(string(c.text))
+func (c *current) onShortcutParagraph98() (interface{}, error) {
+	// sequence of 4 "/" chars or more
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonCallout6() (interface{}, error) {
+func (p *parser) callonShortcutParagraph98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout6()
+	return p.cur.onShortcutParagraph98()
 }
 
-func (c *current) onCallout11() (interface{}, error) {
+func (c *current) onShortcutParagraph104() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCallout11() (interface{}, error) {
+func (p *parser) callonShortcutParagraph104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout11()
+	return p.cur.onShortcutParagraph104()
 }
 
-func (c *current) onCallout15() (interface{}, error) {
+func (c *current) onShortcutParagraph107() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonCallout15() (interface{}, error) {
+func (p *parser) callonShortcutParagraph107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout15()
+	return p.cur.onShortcutParagraph107()
 }
 
-func (c *current) onCallout1(ref interface{}) (interface{}, error) {
-	return types.NewCallout(ref.(int))
+func (c *current) onShortcutParagraph95(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonCallout1() (interface{}, error) {
+func (p *parser) callonShortcutParagraph95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout1(stack["ref"])
+	return p.cur.onShortcutParagraph95(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph9() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onShortcutParagraph117() (interface{}, error) {
+	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph9() (interface{}, error) {
+func (p *parser) callonShortcutParagraph117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph9()
+	return p.cur.onShortcutParagraph117()
 }
 
-func (c *current) onShortcutParagraph16() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
+func (c *current) onShortcutParagraph123() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph16() (bool, error) {
+func (p *parser) callonShortcutParagraph123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph16()
+	return p.cur.onShortcutParagraph123()
 }
 
-func (c *current) onShortcutParagraph19() (interface{}, error) {
-	return types.Tip, nil
-
+func (c *current) onShortcutParagraph126() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph19() (interface{}, error) {
+func (p *parser) callonShortcutParagraph126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph19()
+	return p.cur.onShortcutParagraph126()
 }
 
-func (c *current) onShortcutParagraph21() (interface{}, error) {
-	return types.Note, nil
+func (c *current) onShortcutParagraph114(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph21() (interface{}, error) {
+func (p *parser) callonShortcutParagraph114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph21()
+	return p.cur.onShortcutParagraph114(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph23() (interface{}, error) {
-	return types.Important, nil
-
+func (c *current) onShortcutParagraph137() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph23() (interface{}, error) {
+func (p *parser) callonShortcutParagraph137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph23()
+	return p.cur.onShortcutParagraph137()
 }
 
-func (c *current) onShortcutParagraph25() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onShortcutParagraph141() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph25() (interface{}, error) {
+func (p *parser) callonShortcutParagraph141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph25()
+	return p.cur.onShortcutParagraph141()
 }
 
-func (c *current) onShortcutParagraph27() (interface{}, error) {
-	return types.Caution, nil
-
+func (c *current) onShortcutParagraph144() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph27() (interface{}, error) {
+func (p *parser) callonShortcutParagraph144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph27()
+	return p.cur.onShortcutParagraph144()
 }
 
-func (c *current) onShortcutParagraph31() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
-	return string(c.text), nil
-
+func (c *current) onShortcutParagraph133(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph31() (interface{}, error) {
+func (p *parser) callonShortcutParagraph133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph31()
+	return p.cur.onShortcutParagraph133(stack["language"])
 }
 
-func (c *current) onShortcutParagraph29() (interface{}, error) {
-	// check
-	return types.LiteralParagraph, nil
+func (c *current) onShortcutParagraph154() (interface{}, error) {
+	// sequence of 3 "`" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph29() (interface{}, error) {
+func (p *parser) callonShortcutParagraph154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph29()
+	return p.cur.onShortcutParagraph154()
 }
 
-func (c *current) onShortcutParagraph37() (interface{}, error) {
+func (c *current) onShortcutParagraph160() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph37() (interface{}, error) {
+func (p *parser) callonShortcutParagraph160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph37()
+	return p.cur.onShortcutParagraph160()
 }
 
-func (c *current) onShortcutParagraph40() (interface{}, error) {
+func (c *current) onShortcutParagraph163() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph40() (interface{}, error) {
+func (p *parser) callonShortcutParagraph163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph40()
+	return p.cur.onShortcutParagraph163()
 }
 
-func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
-	// there must be some content on the line
-	return style, nil
+func (c *current) onShortcutParagraph151(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph14() (interface{}, error) {
+func (p *parser) callonShortcutParagraph151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph14(stack["style"])
+	return p.cur.onShortcutParagraph151(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph51() (interface{}, error) {
-
+func (c *current) onShortcutParagraph173() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph51() (interface{}, error) {
+func (p *parser) callonShortcutParagraph173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph51()
+	return p.cur.onShortcutParagraph173()
 }
 
-func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
-	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
+func (c *current) onShortcutParagraph179() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph54() (bool, error) {
+func (p *parser) callonShortcutParagraph179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph54(stack["content"])
+	return p.cur.onShortcutParagraph179()
 }
 
-func (c *current) onShortcutParagraph56() (interface{}, error) {
+func (c *current) onShortcutParagraph182() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph56() (interface{}, error) {
+func (p *parser) callonShortcutParagraph182() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph56()
+	return p.cur.onShortcutParagraph182()
 }
 
-func (c *current) onShortcutParagraph48(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onShortcutParagraph170(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph48() (interface{}, error) {
+func (p *parser) callonShortcutParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph48(stack["content"])
+	return p.cur.onShortcutParagraph170(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, error) {
-	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
-	//   in the middle of the line (with space afterwards)
-	//   or at the end of the line
-	return !firstLine.(*types.RawLine).Contains(":: ") &&
-		!firstLine.(*types.RawLine).HasSuffix("::"), nil
+func (c *current) onShortcutParagraph192() (interface{}, error) {
+	// sequence of 4 "." chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph63() (bool, error) {
+func (p *parser) callonShortcutParagraph192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph192()
 }
 
-func (c *current) onShortcutParagraph76() (interface{}, error) {
+func (c *current) onShortcutParagraph198() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph76() (interface{}, error) {
+func (p *parser) callonShortcutParagraph198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph76()
+	return p.cur.onShortcutParagraph198()
 }
 
-func (c *current) onShortcutParagraph79() (interface{}, error) {
+func (c *current) onShortcutParagraph201() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph79() (interface{}, error) {
+func (p *parser) callonShortcutParagraph201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph79()
+	return p.cur.onShortcutParagraph201()
 }
 
-func (c *current) onShortcutParagraph71() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onShortcutParagraph189(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph71() (interface{}, error) {
+func (p *parser) callonShortcutParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph71()
+	return p.cur.onShortcutParagraph189(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph98() (interface{}, error) {
-	// sequence of 4 "/" chars or more
+func (c *current) onShortcutParagraph211() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph98() (interface{}, error) {
+func (p *parser) callonShortcutParagraph211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph98()
+	return p.cur.onShortcutParagraph211()
 }
 
-func (c *current) onShortcutParagraph104() (interface{}, error) {
+func (c *current) onShortcutParagraph217() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph104() (interface{}, error) {
+func (p *parser) callonShortcutParagraph217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph104()
+	return p.cur.onShortcutParagraph217()
 }
 
-func (c *current) onShortcutParagraph107() (interface{}, error) {
+func (c *current) onShortcutParagraph220() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph107() (interface{}, error) {
+func (p *parser) callonShortcutParagraph220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph107()
+	return p.cur.onShortcutParagraph220()
 }
 
-func (c *current) onShortcutParagraph95(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph208(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph95() (interface{}, error) {
+func (p *parser) callonShortcutParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph95(stack["delimiter"])
+	return p.cur.onShortcutParagraph208(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph117() (interface{}, error) {
-	// sequence of 4 "=" chars or more
+func (c *current) onShortcutParagraph230() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph117() (interface{}, error) {
+func (p *parser) callonShortcutParagraph230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph117()
+	return p.cur.onShortcutParagraph230()
 }
 
-func (c *current) onShortcutParagraph123() (interface{}, error) {
+func (c *current) onShortcutParagraph236() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph123() (interface{}, error) {
+func (p *parser) callonShortcutParagraph236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph123()
+	return p.cur.onShortcutParagraph236()
 }
 
-func (c *current) onShortcutParagraph126() (interface{}, error) {
+func (c *current) onShortcutParagraph239() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph126() (interface{}, error) {
+func (p *parser) callonShortcutParagraph239() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph239()
+}
+
+func (c *current) onShortcutParagraph227(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph227() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph227(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph249() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph126()
+	return p.cur.onShortcutParagraph249()
 }
 
-func (c *current) onShortcutParagraph114(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph255() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph114() (interface{}, error) {
+func (p *parser) callonShortcutParagraph255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph114(stack["delimiter"])
+	return p.cur.onShortcutParagraph255()
 }
 
-func (c *current) onShortcutParagraph137() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onShortcutParagraph258() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph137() (interface{}, error) {
+func (p *parser) callonShortcutParagraph258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph137()
+	return p.cur.onShortcutParagraph258()
 }
 
-func (c *current) onShortcutParagraph141() (interface{}, error) {
+func (c *current) onShortcutParagraph246(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph141() (interface{}, error) {
+func (p *parser) callonShortcutParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph141()
+	return p.cur.onShortcutParagraph246(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph144() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onShortcutParagraph89(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
+
 }
 
-func (p *parser) callonShortcutParagraph144() (interface{}, error) {
+func (p *parser) callonShortcutParagraph89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph144()
+	return p.cur.onShortcutParagraph89(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph133(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+func (c *current) onShortcutParagraph269() (interface{}, error) {
+
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonShortcutParagraph133() (interface{}, error) {
+func (p *parser) callonShortcutParagraph269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph133(stack["language"])
+	return p.cur.onShortcutParagraph269()
 }
 
-func (c *current) onShortcutParagraph154() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onShortcutParagraph271() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonShortcutParagraph154() (interface{}, error) {
+func (p *parser) callonShortcutParagraph271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph154()
+	return p.cur.onShortcutParagraph271()
 }
 
-func (c *current) onShortcutParagraph160() (interface{}, error) {
+func (c *current) onShortcutParagraph284() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph160() (interface{}, error) {
+func (p *parser) callonShortcutParagraph284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph160()
+	return p.cur.onShortcutParagraph284()
 }
 
-func (c *current) onShortcutParagraph163() (interface{}, error) {
+func (c *current) onShortcutParagraph288() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph163() (interface{}, error) {
+func (p *parser) callonShortcutParagraph288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph163()
+	return p.cur.onShortcutParagraph288()
 }
 
-func (c *current) onShortcutParagraph151(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph278(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph151() (interface{}, error) {
+func (p *parser) callonShortcutParagraph278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph151(stack["delimiter"])
+	return p.cur.onShortcutParagraph278(stack["content"])
 }
 
-func (c *current) onShortcutParagraph173() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onShortcutParagraph298() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph173() (interface{}, error) {
+func (p *parser) callonShortcutParagraph298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph173()
+	return p.cur.onShortcutParagraph298()
 }
 
-func (c *current) onShortcutParagraph179() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph301(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonShortcutParagraph179() (interface{}, error) {
+func (p *parser) callonShortcutParagraph301() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph179()
+	return p.cur.onShortcutParagraph301(stack["content"])
 }
 
-func (c *current) onShortcutParagraph182() (interface{}, error) {
+func (c *current) onShortcutParagraph303() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph182() (interface{}, error) {
+func (p *parser) callonShortcutParagraph303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph182()
+	return p.cur.onShortcutParagraph303()
 }
 
-func (c *current) onShortcutParagraph170(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph170() (interface{}, error) {
+func (p *parser) callonShortcutParagraph295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph170(stack["delimiter"])
+	return p.cur.onShortcutParagraph295(stack["content"])
 }
 
-func (c *current) onShortcutParagraph192() (interface{}, error) {
-	// sequence of 4 "." chars or more
-	return string(c.text), nil
+func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
+	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph192() (interface{}, error) {
+func (p *parser) callonShortcutParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph192()
+	return p.cur.onShortcutParagraph66(stack["line"])
 }
 
-func (c *current) onShortcutParagraph198() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
 
 }
 
-func (p *parser) callonShortcutParagraph198() (interface{}, error) {
+func (p *parser) callonShortcutParagraph1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph198()
+	return p.cur.onShortcutParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onShortcutParagraph201() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onParagraph7() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
+
 }
 
-func (p *parser) callonShortcutParagraph201() (interface{}, error) {
+func (p *parser) callonParagraph7() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph201()
+	return p.cur.onParagraph7()
 }
 
-func (c *current) onShortcutParagraph189(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+func (c *current) onParagraph10() (interface{}, error) {
+	return types.Tip, nil
 
 }
 
-func (p *parser) callonShortcutParagraph189() (interface{}, error) {
+func (p *parser) callonParagraph10() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph189(stack["delimiter"])
+	return p.cur.onParagraph10()
 }
 
-func (c *current) onShortcutParagraph211() (interface{}, error) {
-	// sequence of 4 "+" chars or more
-	return string(c.text), nil
+func (c *current) onParagraph12() (interface{}, error) {
+	return types.Note, nil
 
 }
 
-func (p *parser) callonShortcutParagraph211() (interface{}, error) {
+func (p *parser) callonParagraph12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph211()
+	return p.cur.onParagraph12()
 }
 
-func (c *current) onShortcutParagraph217() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onParagraph14() (interface{}, error) {
+	return types.Important, nil
 
 }
 
-func (p *parser) callonShortcutParagraph217() (interface{}, error) {
+func (p *parser) callonParagraph14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph217()
+	return p.cur.onParagraph14()
 }
 
-func (c *current) onShortcutParagraph220() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onParagraph16() (interface{}, error) {
+	return types.Warning, nil
+
 }
 
-func (p *parser) callonShortcutParagraph220() (interface{}, error) {
+func (p *parser) callonParagraph16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph220()
+	return p.cur.onParagraph16()
 }
 
-func (c *current) onShortcutParagraph208(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+func (c *current) onParagraph18() (interface{}, error) {
+	return types.Caution, nil
 
 }
 
-func (p *parser) callonShortcutParagraph208() (interface{}, error) {
+func (p *parser) callonParagraph18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph208(stack["delimiter"])
+	return p.cur.onParagraph18()
 }
 
-func (c *current) onShortcutParagraph230() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onParagraph22() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph230() (interface{}, error) {
+func (p *parser) callonParagraph22() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph230()
+	return p.cur.onParagraph22()
 }
 
-func (c *current) onShortcutParagraph236() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onParagraph20() (interface{}, error) {
+	// check
+	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonShortcutParagraph236() (interface{}, error) {
+func (p *parser) callonParagraph20() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph236()
+	return p.cur.onParagraph20()
 }
 
-func (c *current) onShortcutParagraph239() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onParagraph28() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonShortcutParagraph239() (interface{}, error) {
+func (p *parser) callonParagraph28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph239()
+	return p.cur.onParagraph28()
 }
 
-func (c *current) onShortcutParagraph227(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
-
+func (c *current) onParagraph31() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph227() (interface{}, error) {
+func (p *parser) callonParagraph31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph227(stack["delimiter"])
+	return p.cur.onParagraph31()
 }
 
-func (c *current) onShortcutParagraph249() (interface{}, error) {
-	// sequence of 4 "*" chars or more
-	return string(c.text), nil
+func (c *current) onParagraph5(style interface{}) (interface{}, error) {
+	// there must be some content on the line
+	return style, nil
 
 }
 
-func (p *parser) callonShortcutParagraph249() (interface{}, error) {
+func (p *parser) callonParagraph5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph249()
+	return p.cur.onParagraph5(stack["style"])
 }
 
-func (c *current) onShortcutParagraph255() (interface{}, error) {
+func (c *current) onParagraph42() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph255() (interface{}, error) {
+func (p *parser) callonParagraph42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph255()
+	return p.cur.onParagraph42()
 }
 
-func (c *current) onShortcutParagraph258() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onParagraph45(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
+
 }
 
-func (p *parser) callonShortcutParagraph258() (interface{}, error) {
+func (p *parser) callonParagraph45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph258()
+	return p.cur.onParagraph45(stack["content"])
 }
 
-func (c *current) onShortcutParagraph246(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
-
+func (c *current) onParagraph47() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph246() (interface{}, error) {
+func (p *parser) callonParagraph47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph246(stack["delimiter"])
+	return p.cur.onParagraph47()
 }
 
-func (c *current) onShortcutParagraph89(delimiter interface{}) (interface{}, error) {
-	return delimiter, nil
+func (c *current) onParagraph39(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph89() (interface{}, error) {
+func (p *parser) callonParagraph39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph89(stack["delimiter"])
+	return p.cur.onParagraph39(stack["content"])
 }
 
-func (c *current) onShortcutParagraph269() (interface{}, error) {
+func (c *current) onParagraph66() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph269() (interface{}, error) {
+func (p *parser) callonParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph269()
+	return p.cur.onParagraph66()
 }
 
-func (c *current) onShortcutParagraph271() (interface{}, error) {
+func (c *current) onParagraph69() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph271() (interface{}, error) {
+func (p *parser) callonParagraph69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph271()
+	return p.cur.onParagraph69()
 }
 
-func (c *current) onShortcutParagraph284() (interface{}, error) {
+func (c *current) onParagraph61() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonParagraph61() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph61()
+}
+
+func (c *current) onParagraph86() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph284() (interface{}, error) {
+func (p *parser) callonParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph284()
+	return p.cur.onParagraph86()
 }
 
-func (c *current) onShortcutParagraph288() (interface{}, error) {
+func (c *current) onParagraph90() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph288() (interface{}, error) {
+func (p *parser) callonParagraph90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288()
+	return p.cur.onParagraph90()
 }
 
-func (c *current) onShortcutParagraph278(content interface{}) (interface{}, error) {
+func (c *current) onParagraph80(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph278() (interface{}, error) {
+func (p *parser) callonParagraph80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph278(stack["content"])
+	return p.cur.onParagraph80(stack["content"])
 }
 
-func (c *current) onShortcutParagraph298() (interface{}, error) {
+func (c *current) onParagraph100() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph298() (interface{}, error) {
+func (p *parser) callonParagraph100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph298()
+	return p.cur.onParagraph100()
 }
 
-func (c *current) onShortcutParagraph301(content interface{}) (bool, error) {
+func (c *current) onParagraph103(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonShortcutParagraph301() (bool, error) {
+func (p *parser) callonParagraph103() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph301(stack["content"])
+	return p.cur.onParagraph103(stack["content"])
 }
 
-func (c *current) onShortcutParagraph303() (interface{}, error) {
+func (c *current) onParagraph105() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph303() (interface{}, error) {
+func (p *parser) callonParagraph105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph303()
+	return p.cur.onParagraph105()
 }
 
-func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
+func (c *current) onParagraph97(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph295() (interface{}, error) {
+func (p *parser) callonParagraph97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph295(stack["content"])
+	return p.cur.onParagraph97(stack["content"])
 }
 
-func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
+func (c *current) onParagraph56(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
+func (p *parser) callonParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph66(stack["line"])
+	return p.cur.onParagraph56(stack["line"])
 }
 
-func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
 
 }
 
-func (p *parser) callonShortcutParagraph1() (interface{}, error) {
+func (p *parser) callonParagraph1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
+	return p.cur.onParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onParagraph7() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
+func (c *current) onEscapedQuotedText5() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph7() (bool, error) {
+func (p *parser) callonEscapedQuotedText5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph7()
+	return p.cur.onEscapedQuotedText5()
 }
 
-func (c *current) onParagraph10() (interface{}, error) {
-	return types.Tip, nil
+func (c *current) onEscapedQuotedText1(attributes, element interface{}) (interface{}, error) {
+	return append([]interface{}{attributes}, element.([]interface{})...), nil
 
 }
 
-func (p *parser) callonParagraph10() (interface{}, error) {
+func (p *parser) callonEscapedQuotedText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph10()
+	return p.cur.onEscapedQuotedText1(stack["attributes"], stack["element"])
 }
 
-func (c *current) onParagraph12() (interface{}, error) {
-	return types.Note, nil
+func (c *current) onUnescapedQuotedText1(attributes, element interface{}) (interface{}, error) {
+	return element.(*types.QuotedText).WithAttributes(attributes)
 
 }
 
-func (p *parser) callonParagraph12() (interface{}, error) {
+func (p *parser) callonUnescapedQuotedText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph12()
+	return p.cur.onUnescapedQuotedText1(stack["attributes"], stack["element"])
 }
 
-func (c *current) onParagraph14() (interface{}, error) {
-	return types.Important, nil
+func (c *current) onQuotedTextElement5() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph14() (interface{}, error) {
+func (p *parser) callonQuotedTextElement5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph14()
+	return p.cur.onQuotedTextElement5()
 }
 
-func (c *current) onParagraph16() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onQuotedTextElement11() (bool, error) {
+	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonParagraph16() (interface{}, error) {
+func (p *parser) callonQuotedTextElement11() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph16()
+	return p.cur.onQuotedTextElement11()
 }
 
-func (c *current) onParagraph18() (interface{}, error) {
-	return types.Caution, nil
+func (c *current) onQuotedTextElement2(text interface{}) (interface{}, error) {
+	log.Debugf("new text: '%v'", string(c.text))
+	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonParagraph18() (interface{}, error) {
+func (p *parser) callonQuotedTextElement2() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph18()
+	return p.cur.onQuotedTextElement2(stack["text"])
 }
 
-func (c *current) onParagraph22() (interface{}, error) {
+func (c *current) onQuotedTextElement16() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph22() (interface{}, error) {
+func (p *parser) callonQuotedTextElement16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph22()
+	return p.cur.onQuotedTextElement16()
 }
 
-func (c *current) onParagraph20() (interface{}, error) {
-	// check
-	return types.LiteralParagraph, nil
+func (c *current) onQuotedTextElement22() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonParagraph20() (interface{}, error) {
+func (p *parser) callonQuotedTextElement22() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph20()
+	return p.cur.onQuotedTextElement22()
 }
 
-func (c *current) onParagraph28() (interface{}, error) {
+func (c *current) onQuotedTextElement20() (interface{}, error) {
+	//log.Debug("matched escaped apostrophe")
+	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
-	return string(c.text), nil
+}
+
+func (p *parser) callonQuotedTextElement20() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement20()
+}
+
+func (c *current) onQuotedTextElement28() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonParagraph28() (interface{}, error) {
+func (p *parser) callonQuotedTextElement28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph28()
+	return p.cur.onQuotedTextElement28()
 }
 
-func (c *current) onParagraph31() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onQuotedTextElement29() (bool, error) {
+	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
+	return c.isPrecededByAlphanum(), nil
+
 }
 
-func (p *parser) callonParagraph31() (interface{}, error) {
+func (p *parser) callonQuotedTextElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph31()
+	return p.cur.onQuotedTextElement29()
 }
 
-func (c *current) onParagraph5(style interface{}) (interface{}, error) {
-	// there must be some content on the line
-	return style, nil
+func (c *current) onQuotedTextElement26() (interface{}, error) {
+	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonParagraph5() (interface{}, error) {
+func (p *parser) callonQuotedTextElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph5(stack["style"])
+	return p.cur.onQuotedTextElement26()
 }
 
-func (c *current) onParagraph42() (interface{}, error) {
+func (c *current) onQuotedTextElement37() (bool, error) {
+
+	return c.allSubstitutionsDisabled(Macros, Quotes), nil
+
+}
+
+func (p *parser) callonQuotedTextElement37() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement37()
+}
+
+func (c *current) onQuotedTextElement41() (bool, error) {
+
+	return c.isSubstitutionDisabled(Quotes), nil
 
+}
+
+func (p *parser) callonQuotedTextElement41() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement41()
+}
+
+func (c *current) onQuotedTextElement33() (interface{}, error) {
+
+	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph42() (interface{}, error) {
+func (p *parser) callonQuotedTextElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph42()
+	return p.cur.onQuotedTextElement33()
 }
 
-func (c *current) onParagraph45(content interface{}) (bool, error) {
-	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
+func (c *current) onQuotedTextElement49() (bool, error) {
+	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonParagraph45() (bool, error) {
+func (p *parser) callonQuotedTextElement49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph45(stack["content"])
+	return p.cur.onQuotedTextElement49()
 }
 
-func (c *current) onParagraph47() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onQuotedTextElement56() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonParagraph47() (interface{}, error) {
+func (p *parser) callonQuotedTextElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph47()
+	return p.cur.onQuotedTextElement56()
 }
 
-func (c *current) onParagraph39(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
+
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+
+}
+
+func (p *parser) callonQuotedTextElement52() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement52(stack["name"])
+}
+
+func (c *current) onQuotedTextElement66() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph39() (interface{}, error) {
+func (p *parser) callonQuotedTextElement66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph39(stack["content"])
+	return p.cur.onQuotedTextElement66()
 }
 
-func (c *current) onParagraph66() (interface{}, error) {
+func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonParagraph66() (interface{}, error) {
+func (p *parser) callonQuotedTextElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph66()
+	return p.cur.onQuotedTextElement62(stack["name"])
 }
 
-func (c *current) onParagraph69() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onQuotedTextElement76() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonParagraph69() (interface{}, error) {
+func (p *parser) callonQuotedTextElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph69()
+	return p.cur.onQuotedTextElement76()
 }
 
-func (c *current) onParagraph61() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onQuotedTextElement88() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph61() (interface{}, error) {
+func (p *parser) callonQuotedTextElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph61()
+	return p.cur.onQuotedTextElement88()
 }
 
-func (c *current) onParagraph86() (interface{}, error) {
+func (c *current) onQuotedTextElement90() (interface{}, error) {
 
-	return string(c.text), nil
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonParagraph86() (interface{}, error) {
+func (p *parser) callonQuotedTextElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph86()
+	return p.cur.onQuotedTextElement90()
 }
 
-func (c *current) onParagraph90() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
+	return start, nil
+
 }
 
-func (p *parser) callonParagraph90() (interface{}, error) {
+func (p *parser) callonQuotedTextElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph90()
+	return p.cur.onQuotedTextElement83(stack["start"])
 }
 
-func (c *current) onParagraph80(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
-
+func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonParagraph80() (interface{}, error) {
+func (p *parser) callonQuotedTextElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph80(stack["content"])
+	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
 }
 
-func (c *current) onParagraph100() (interface{}, error) {
-
+func (c *current) onQuotedTextElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph100() (interface{}, error) {
+func (p *parser) callonQuotedTextElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph100()
+	return p.cur.onQuotedTextElement98()
 }
 
-func (c *current) onParagraph103(content interface{}) (bool, error) {
-	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
+func (c *current) onQuotedTextElement110() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph103() (bool, error) {
+func (p *parser) callonQuotedTextElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph103(stack["content"])
+	return p.cur.onQuotedTextElement110()
 }
 
-func (c *current) onParagraph105() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onQuotedTextElement112() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
 }
 
-func (p *parser) callonParagraph105() (interface{}, error) {
+func (p *parser) callonQuotedTextElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph105()
+	return p.cur.onQuotedTextElement112()
 }
 
-func (c *current) onParagraph97(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonParagraph97() (interface{}, error) {
+func (p *parser) callonQuotedTextElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph97(stack["content"])
+	return p.cur.onQuotedTextElement105(stack["start"])
 }
 
-func (c *current) onParagraph56(line interface{}) (interface{}, error) {
-	return line, nil
-
+func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonParagraph56() (interface{}, error) {
+func (p *parser) callonQuotedTextElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph56(stack["line"])
+	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
 }
 
-func (c *current) onParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
+func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
+	return element, nil
 
 }
 
-func (p *parser) callonParagraph1() (interface{}, error) {
+func (p *parser) callonQuotedTextElement47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
+	return p.cur.onQuotedTextElement47(stack["element"])
 }
 
-func (c *current) onEscapedQuotedText5() (interface{}, error) {
+func (c *current) onQuotedTextElement118() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonEscapedQuotedText5() (interface{}, error) {
+func (p *parser) callonQuotedTextElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedQuotedText5()
+	return p.cur.onQuotedTextElement118()
 }
 
-func (c *current) onEscapedQuotedText1(attributes, element interface{}) (interface{}, error) {
-	return append([]interface{}{attributes}, element.([]interface{})...), nil
-
+func (c *current) onQuotedTextElement124() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonEscapedQuotedText1() (interface{}, error) {
+func (p *parser) callonQuotedTextElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedQuotedText1(stack["attributes"], stack["element"])
+	return p.cur.onQuotedTextElement124()
 }
 
-func (c *current) onUnescapedQuotedText1(attributes, element interface{}) (interface{}, error) {
-	return element.(*types.QuotedText).WithAttributes(attributes)
-
+func (c *current) onQuotedTextElement116() (interface{}, error) {
+	return string(c.text), nil
 }
 
-func (p *parser) callonUnescapedQuotedText1() (interface{}, error) {
+func (p *parser) callonQuotedTextElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnescapedQuotedText1(stack["attributes"], stack["element"])
+	return p.cur.onQuotedTextElement116()
 }
 
-func (c *current) onQuotedTextElement5() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onQuotedTextElement133() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement5() (interface{}, error) {
+func (p *parser) callonQuotedTextElement133() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement5()
+	return p.cur.onQuotedTextElement133()
 }
 
-func (c *current) onQuotedTextElement11() (bool, error) {
-	return c.isInlineMacro(string(c.text)), nil
+func (c *current) onQuotedTextElement135() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement11() (bool, error) {
+func (p *parser) callonQuotedTextElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement11()
+	return p.cur.onQuotedTextElement135()
 }
 
-func (c *current) onQuotedTextElement2(text interface{}) (interface{}, error) {
-	log.Debugf("new text: '%v'", string(c.text))
-	return types.NewStringElement(string(c.text))
+func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
+	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement2() (interface{}, error) {
+func (p *parser) callonQuotedTextElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement2(stack["text"])
+	return p.cur.onQuotedTextElement131(stack["element"])
 }
 
-func (c *current) onQuotedTextElement16() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onQuotedTextElement141() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonQuotedTextElement16() (interface{}, error) {
+func (p *parser) callonQuotedTextElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement16()
+	return p.cur.onQuotedTextElement141()
 }
 
-func (c *current) onQuotedTextElement22() (bool, error) {
-	return c.isSubstitutionEnabled(Replacements), nil
-
+func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
+	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement22() (bool, error) {
+func (p *parser) callonQuotedTextElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement22()
+	return p.cur.onQuotedTextElement137(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement20() (interface{}, error) {
-	//log.Debug("matched escaped apostrophe")
-	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
+func (c *current) onQuotedTextElement145() (interface{}, error) {
+
+	if log.IsLevelEnabled(log.DebugLevel) {
+		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
+	}
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement20() (interface{}, error) {
+func (p *parser) callonQuotedTextElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement20()
+	return p.cur.onQuotedTextElement145()
 }
 
-func (c *current) onQuotedTextElement28() (bool, error) {
-	return c.isSubstitutionEnabled(Replacements), nil
+func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
+	return types.NewQuotedText(types.DoubleQuoteBold, elements.([]interface{}))
 
 }
 
-func (p *parser) callonQuotedTextElement28() (bool, error) {
+func (p *parser) callonDoubleQuoteBoldText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement28()
+	return p.cur.onDoubleQuoteBoldText1(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement29() (bool, error) {
-	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
-	return c.isPrecededByAlphanum(), nil
+func (c *current) onDoubleQuoteBoldTextElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement29() (bool, error) {
+func (p *parser) callonDoubleQuoteBoldTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement29()
+	return p.cur.onDoubleQuoteBoldTextElement1(stack["element"])
 }
 
-func (c *current) onQuotedTextElement26() (interface{}, error) {
-	return types.NewSymbol("'")
+func (c *current) onSingleQuoteBoldText4() (bool, error) {
+	log.Debug("SingleQuoteBoldTextStartDelimiter")
+	return c.isSingleQuotedTextAllowed(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement26() (interface{}, error) {
+func (p *parser) callonSingleQuoteBoldText4() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement26()
+	return p.cur.onSingleQuoteBoldText4()
 }
 
-func (c *current) onQuotedTextElement37() (bool, error) {
-
-	return c.allSubstitutionsDisabled(Macros, Quotes), nil
+func (c *current) onSingleQuoteBoldText13(elements interface{}) (bool, error) {
+	log.Debug("SingleQuoteBoldTextEndDelimiter")
+	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement37() (bool, error) {
+func (p *parser) callonSingleQuoteBoldText13() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement37()
+	return p.cur.onSingleQuoteBoldText13(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement41() (bool, error) {
-
-	return c.isSubstitutionDisabled(Quotes), nil
+func (c *current) onSingleQuoteBoldText1(elements interface{}) (interface{}, error) {
+	return types.NewQuotedText(types.SingleQuoteBold, elements.([]interface{}))
 
 }
 
-func (p *parser) callonQuotedTextElement41() (bool, error) {
+func (p *parser) callonSingleQuoteBoldText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement41()
+	return p.cur.onSingleQuoteBoldText1(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement33() (interface{}, error) {
+func (c *current) onSingleQuoteBoldTextElements4() (interface{}, error) {
 
-	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement33() (interface{}, error) {
+func (p *parser) callonSingleQuoteBoldTextElements4() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement33()
+	return p.cur.onSingleQuoteBoldTextElements4()
 }
 
-func (c *current) onQuotedTextElement49() (bool, error) {
-	return c.isSubstitutionEnabled(AttributeRefs), nil
+func (c *current) onSingleQuoteBoldTextElements9(elements interface{}) (bool, error) {
+	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonQuotedTextElement49() (bool, error) {
+func (p *parser) callonSingleQuoteBoldTextElements9() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement49()
+	return p.cur.onSingleQuoteBoldTextElements9(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement56() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSingleQuoteBoldTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
 
 }
 
-func (p *parser) callonQuotedTextElement56() (interface{}, error) {
+func (p *parser) callonSingleQuoteBoldTextElements1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement56()
+	return p.cur.onSingleQuoteBoldTextElements1(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
-
-	log.Debug("matching escaped attribute reference")
-	// return types.NewStringElement("{"+name.(string)+"}")
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+func (c *current) onSingleQuoteBoldTextElement10() (bool, error) {
+	log.Debug("SingleQuoteBoldTextEndDelimiter")
+	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement52() (interface{}, error) {
+func (p *parser) callonSingleQuoteBoldTextElement10() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement52(stack["name"])
+	return p.cur.onSingleQuoteBoldTextElement10()
 }
 
-func (c *current) onQuotedTextElement66() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSingleQuoteBoldTextElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement66() (interface{}, error) {
+func (p *parser) callonSingleQuoteBoldTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement66()
+	return p.cur.onSingleQuoteBoldTextElement1(stack["element"])
 }
 
-func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
-
-	return types.NewAttributeReference(name.(string), string(c.text))
+func (c *current) onEscapedBoldText5() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement62() (interface{}, error) {
+func (p *parser) callonEscapedBoldText5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement62(stack["name"])
+	return p.cur.onEscapedBoldText5()
 }
 
-func (c *current) onQuotedTextElement76() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onEscapedBoldText2(backslashes, elements interface{}) (interface{}, error) {
+
+	return types.NewEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
 
 }
 
-func (p *parser) callonQuotedTextElement76() (interface{}, error) {
+func (p *parser) callonEscapedBoldText2() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement76()
+	return p.cur.onEscapedBoldText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onQuotedTextElement88() (interface{}, error) {
+func (c *current) onEscapedBoldText17() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement88() (interface{}, error) {
+func (p *parser) callonEscapedBoldText17() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement88()
+	return p.cur.onEscapedBoldText17()
 }
 
-func (c *current) onQuotedTextElement90() (interface{}, error) {
+func (c *current) onEscapedBoldText14(backslashes, elements interface{}) (interface{}, error) {
 
-	return strconv.Atoi(string(c.text))
+	result := append([]interface{}{"*"}, elements.([]interface{}))
+	return types.NewEscapedQuotedText(backslashes.(string), "*", result)
 
 }
 
-func (p *parser) callonQuotedTextElement90() (interface{}, error) {
+func (p *parser) callonEscapedBoldText14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement90()
+	return p.cur.onEscapedBoldText14(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
-	return start, nil
+func (c *current) onEscapedBoldText27() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement83() (interface{}, error) {
+func (p *parser) callonEscapedBoldText27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement83(stack["start"])
+	return p.cur.onEscapedBoldText27()
 }
 
-func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onEscapedBoldText24(backslashes, elements interface{}) (interface{}, error) {
+
+	return types.NewEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
+
 }
 
-func (p *parser) callonQuotedTextElement72() (interface{}, error) {
+func (p *parser) callonEscapedBoldText24() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
+	return p.cur.onEscapedBoldText24(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onQuotedTextElement98() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onDoubleQuoteItalicText1(elements interface{}) (interface{}, error) {
+	return types.NewQuotedText(types.DoubleQuoteItalic, elements.([]interface{}))
 
 }
 
-func (p *parser) callonQuotedTextElement98() (interface{}, error) {
+func (p *parser) callonDoubleQuoteItalicText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement98()
+	return p.cur.onDoubleQuoteItalicText1(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement110() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onDoubleQuoteItalicTextElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement110() (interface{}, error) {
+func (p *parser) callonDoubleQuoteItalicTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement110()
+	return p.cur.onDoubleQuoteItalicTextElement1(stack["element"])
 }
 
-func (c *current) onQuotedTextElement112() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
+func (c *current) onSingleQuoteItalicText4() (bool, error) {
+	log.Debug("SingleQuoteItalicTextStartDelimiter")
+	return c.isSingleQuotedTextAllowed(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement112() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicText4() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement112()
+	return p.cur.onSingleQuoteItalicText4()
 }
 
-func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
-	return start, nil
+func (c *current) onSingleQuoteItalicText13(elements interface{}) (bool, error) {
+	log.Debug("SingleQuoteItalicTextEndDelimiter")
+	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement105() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicText13() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement105(stack["start"])
+	return p.cur.onSingleQuoteItalicText13(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+func (c *current) onSingleQuoteItalicText1(elements interface{}) (interface{}, error) {
+
+	return types.NewQuotedText(types.SingleQuoteItalic, elements.([]interface{}))
+
 }
 
-func (p *parser) callonQuotedTextElement94() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
+	return p.cur.onSingleQuoteItalicText1(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
-	return element, nil
+func (c *current) onSingleQuoteItalicTextElements4() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement47() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicTextElements4() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement47(stack["element"])
+	return p.cur.onSingleQuoteItalicTextElements4()
 }
 
-func (c *current) onQuotedTextElement118() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onSingleQuoteItalicTextElements9(elements interface{}) (bool, error) {
+	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
+
 }
 
-func (p *parser) callonQuotedTextElement118() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicTextElements9() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement118()
+	return p.cur.onSingleQuoteItalicTextElements9(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement124() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onSingleQuoteItalicTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
+
 }
 
-func (p *parser) callonQuotedTextElement124() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicTextElements1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement124()
+	return p.cur.onSingleQuoteItalicTextElements1(stack["elements"])
 }
 
-func (c *current) onQuotedTextElement116() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSingleQuoteItalicTextElement10() (bool, error) {
+	log.Debug("SingleQuoteItalicTextEndDelimiter")
+	return !c.isPrecededBySpace(), nil
+
 }
 
-func (p *parser) callonQuotedTextElement116() (interface{}, error) {
+func (p *parser) callonSingleQuoteItalicTextElement10() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement116()
+	return p.cur.onSingleQuoteItalicTextElement10()
 }
 
-func (c *current) onQuotedTextElement133() (bool, error) {
-	return c.isSubstitutionEnabled(SpecialCharacters), nil
+func (c *current) onSingleQuoteItalicTextElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement133() (bool, error) {
+func (p *parser) callonSingleQuoteItalicTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement133()
+	return p.cur.onSingleQuoteItalicTextElement1(stack["element"])
 }
 
-func (c *current) onQuotedTextElement135() (interface{}, error) {
-	return types.NewSpecialCharacter(string(c.text))
+func (c *current) onEscapedItalicText5() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement135() (interface{}, error) {
+func (p *parser) callonEscapedItalicText5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement135()
+	return p.cur.onEscapedItalicText5()
 }
 
-func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
-	return element, nil
+func (c *current) onEscapedItalicText2(backslashes, elements interface{}) (interface{}, error) {
+	return types.NewEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
 
 }
 
-func (p *parser) callonQuotedTextElement131() (interface{}, error) {
+func (p *parser) callonEscapedItalicText2() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement131(stack["element"])
+	return p.cur.onEscapedItalicText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onQuotedTextElement141() (interface{}, error) {
+func (c *current) onEscapedItalicText17() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonQuotedTextElement141() (interface{}, error) {
+func (p *parser) callonEscapedItalicText17() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement141()
+	return p.cur.onEscapedItalicText17()
 }
 
-func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string), string(c.text))
+func (c *current) onEscapedItalicText14(backslashes, elements interface{}) (interface{}, error) {
+	// unbalanced `__` vs `_` punctuation
+	result := append([]interface{}{"_"}, elements.([]interface{}))
+	return types.NewEscapedQuotedText(backslashes.(string), "_", result)
+
 }
 
-func (p *parser) callonQuotedTextElement137() (interface{}, error) {
+func (p *parser) callonEscapedItalicText14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement137(stack["ref"])
+	return p.cur.onEscapedItalicText14(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onQuotedTextElement145() (interface{}, error) {
-
-	if log.IsLevelEnabled(log.DebugLevel) {
-		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
-	}
+func (c *current) onEscapedItalicText27() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement145() (interface{}, error) {
+func (p *parser) callonEscapedItalicText27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement145()
+	return p.cur.onEscapedItalicText27()
 }
 
-func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
-	return types.NewQuotedText(types.DoubleQuoteBold, elements.([]interface{}))
+func (c *current) onEscapedItalicText24(backslashes, elements interface{}) (interface{}, error) {
+	// simple punctuation must be evaluated last
+	return types.NewEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
 
 }
 
-func (p *parser) callonDoubleQuoteBoldText1() (interface{}, error) {
+func (p *parser) callonEscapedItalicText24() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteBoldText1(stack["elements"])
+	return p.cur.onEscapedItalicText24(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onDoubleQuoteBoldTextElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
-	return element, nil
+func (c *current) onDoubleQuoteMonospaceText1(elements interface{}) (interface{}, error) {
+
+	return types.NewQuotedText(types.DoubleQuoteMonospace, elements.([]interface{}))
 
 }
 
-func (p *parser) callonDoubleQuoteBoldTextElement1() (interface{}, error) {
+func (p *parser) callonDoubleQuoteMonospaceText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteBoldTextElement1(stack["element"])
+	return p.cur.onDoubleQuoteMonospaceText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteBoldText4() (bool, error) {
-	log.Debug("SingleQuoteBoldTextStartDelimiter")
-	return c.isSingleQuotedTextAllowed(), nil
+func (c *current) onDoubleQuoteMonospaceTextElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldText4() (bool, error) {
+func (p *parser) callonDoubleQuoteMonospaceTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldText4()
+	return p.cur.onDoubleQuoteMonospaceTextElement1(stack["element"])
 }
 
-func (c *current) onSingleQuoteBoldText13(elements interface{}) (bool, error) {
-	log.Debug("SingleQuoteBoldTextEndDelimiter")
+func (c *current) onSingleQuoteMonospaceTextEndDelimiter5() (bool, error) {
+	log.Debug("SingleQuoteMonospaceTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldText13() (bool, error) {
+func (p *parser) callonSingleQuoteMonospaceTextEndDelimiter5() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldText13(stack["elements"])
+	return p.cur.onSingleQuoteMonospaceTextEndDelimiter5()
 }
 
-func (c *current) onSingleQuoteBoldText1(elements interface{}) (interface{}, error) {
-	return types.NewQuotedText(types.SingleQuoteBold, elements.([]interface{}))
+func (c *current) onSingleQuoteMonospaceText4() (bool, error) {
+	log.Debug("SingleQuoteMonospaceTextStartDelimiter")
+	return c.isSingleQuotedTextAllowed(), nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldText1() (interface{}, error) {
+func (p *parser) callonSingleQuoteMonospaceText4() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldText1(stack["elements"])
+	return p.cur.onSingleQuoteMonospaceText4()
 }
 
-func (c *current) onSingleQuoteBoldTextElements4() (interface{}, error) {
+func (c *current) onSingleQuoteMonospaceText1(elements interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewQuotedText(types.SingleQuoteMonospace, elements.([]interface{}))
 
 }
 
-func (p *parser) callonSingleQuoteBoldTextElements4() (interface{}, error) {
+func (p *parser) callonSingleQuoteMonospaceText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldTextElements4()
+	return p.cur.onSingleQuoteMonospaceText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteBoldTextElements9(elements interface{}) (bool, error) {
-	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
+func (c *current) onSingleQuoteMonospaceTextElements4() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldTextElements9() (bool, error) {
+func (p *parser) callonSingleQuoteMonospaceTextElements4() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldTextElements9(stack["elements"])
+	return p.cur.onSingleQuoteMonospaceTextElements4()
 }
 
-func (c *current) onSingleQuoteBoldTextElements1(elements interface{}) (interface{}, error) {
-	return elements, nil
+func (c *current) onSingleQuoteMonospaceTextElements9(elements interface{}) (bool, error) {
+	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonSingleQuoteBoldTextElements1() (interface{}, error) {
+func (p *parser) callonSingleQuoteMonospaceTextElements9() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldTextElements1(stack["elements"])
+	return p.cur.onSingleQuoteMonospaceTextElements9(stack["elements"])
 }
 
-func (c *current) onSingleQuoteBoldTextElement10() (bool, error) {
-	log.Debug("SingleQuoteBoldTextEndDelimiter")
-	return !c.isPrecededBySpace(), nil
+func (c *current) onSingleQuoteMonospaceTextElements1(elements interface{}) (interface{}, error) {
+	return elements, nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldTextElement10() (bool, error) {
+func (p *parser) callonSingleQuoteMonospaceTextElements1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldTextElement10()
+	return p.cur.onSingleQuoteMonospaceTextElements1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteBoldTextElement1(element interface{}) (interface{}, error) {
+func (c *current) onSingleQuoteMonospaceTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldTextElement1() (interface{}, error) {
+func (p *parser) callonSingleQuoteMonospaceTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldTextElement1(stack["element"])
+	return p.cur.onSingleQuoteMonospaceTextElement1(stack["element"])
 }
 
-func (c *current) onEscapedBoldText5() (interface{}, error) {
+func (c *current) onEscapedMonospaceText5() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedBoldText5() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText5()
+	return p.cur.onEscapedMonospaceText5()
 }
 
-func (c *current) onEscapedBoldText2(backslashes, elements interface{}) (interface{}, error) {
-
-	return types.NewEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
+func (c *current) onEscapedMonospaceText2(backslashes, elements interface{}) (interface{}, error) {
+	return types.NewEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedBoldText2() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText2() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText2(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMonospaceText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedBoldText17() (interface{}, error) {
+func (c *current) onEscapedMonospaceText17() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedBoldText17() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText17() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText17()
+	return p.cur.onEscapedMonospaceText17()
 }
 
-func (c *current) onEscapedBoldText14(backslashes, elements interface{}) (interface{}, error) {
-
-	result := append([]interface{}{"*"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "*", result)
+func (c *current) onEscapedMonospaceText14(backslashes, elements interface{}) (interface{}, error) {
+	result := append([]interface{}{"`"}, elements.([]interface{}))
+	return types.NewEscapedQuotedText(backslashes.(string), "`", result)
 
 }
 
-func (p *parser) callonEscapedBoldText14() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText14(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMonospaceText14(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedBoldText27() (interface{}, error) {
+func (c *current) onEscapedMonospaceText27() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedBoldText27() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText27()
+	return p.cur.onEscapedMonospaceText27()
 }
 
-func (c *current) onEscapedBoldText24(backslashes, elements interface{}) (interface{}, error) {
-
-	return types.NewEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
+func (c *current) onEscapedMonospaceText24(backslashes, elements interface{}) (interface{}, error) {
+	return types.NewEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedBoldText24() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText24() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText24(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMonospaceText24(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onDoubleQuoteItalicText1(elements interface{}) (interface{}, error) {
-	return types.NewQuotedText(types.DoubleQuoteItalic, elements.([]interface{}))
+func (c *current) onDoubleQuoteMarkedText1(elements interface{}) (interface{}, error) {
+
+	return types.NewQuotedText(types.DoubleQuoteMarked, elements.([]interface{}))
 
 }
 
-func (p *parser) callonDoubleQuoteItalicText1() (interface{}, error) {
+func (p *parser) callonDoubleQuoteMarkedText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteItalicText1(stack["elements"])
+	return p.cur.onDoubleQuoteMarkedText1(stack["elements"])
 }
 
-func (c *current) onDoubleQuoteItalicTextElement1(element interface{}) (interface{}, error) {
+func (c *current) onDoubleQuoteMarkedTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
 
 }
 
-func (p *parser) callonDoubleQuoteItalicTextElement1() (interface{}, error) {
+func (p *parser) callonDoubleQuoteMarkedTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteItalicTextElement1(stack["element"])
+	return p.cur.onDoubleQuoteMarkedTextElement1(stack["element"])
 }
 
-func (c *current) onSingleQuoteItalicText4() (bool, error) {
-	log.Debug("SingleQuoteItalicTextStartDelimiter")
+func (c *current) onSingleQuoteMarkedText4() (bool, error) {
+	log.Debug("SingleQuoteMarkedTextStartDelimiter")
 	return c.isSingleQuotedTextAllowed(), nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicText4() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedText4() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicText4()
+	return p.cur.onSingleQuoteMarkedText4()
 }
 
-func (c *current) onSingleQuoteItalicText13(elements interface{}) (bool, error) {
-	log.Debug("SingleQuoteItalicTextEndDelimiter")
+func (c *current) onSingleQuoteMarkedText13(elements interface{}) (bool, error) {
+	log.Debug("SingleQuoteMarkedTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicText13() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedText13() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicText13(stack["elements"])
+	return p.cur.onSingleQuoteMarkedText13(stack["elements"])
 }
 
-func (c *current) onSingleQuoteItalicText1(elements interface{}) (interface{}, error) {
+func (c *current) onSingleQuoteMarkedText1(elements interface{}) (interface{}, error) {
 
-	return types.NewQuotedText(types.SingleQuoteItalic, elements.([]interface{}))
+	return types.NewQuotedText(types.SingleQuoteMarked, elements.([]interface{}))
 
 }
 
-func (p *parser) callonSingleQuoteItalicText1() (interface{}, error) {
+func (p *parser) callonSingleQuoteMarkedText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicText1(stack["elements"])
+	return p.cur.onSingleQuoteMarkedText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteItalicTextElements4() (interface{}, error) {
+func (c *current) onSingleQuoteMarkedTextElements4() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicTextElements4() (interface{}, error) {
+func (p *parser) callonSingleQuoteMarkedTextElements4() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicTextElements4()
+	return p.cur.onSingleQuoteMarkedTextElements4()
 }
 
-func (c *current) onSingleQuoteItalicTextElements9(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteMarkedTextElements9(elements interface{}) (bool, error) {
 	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonSingleQuoteItalicTextElements9() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedTextElements9() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicTextElements9(stack["elements"])
+	return p.cur.onSingleQuoteMarkedTextElements9(stack["elements"])
 }
 
-func (c *current) onSingleQuoteItalicTextElements1(elements interface{}) (interface{}, error) {
+func (c *current) onSingleQuoteMarkedTextElements1(elements interface{}) (interface{}, error) {
 	return elements, nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicTextElements1() (interface{}, error) {
+func (p *parser) callonSingleQuoteMarkedTextElements1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicTextElements1(stack["elements"])
+	return p.cur.onSingleQuoteMarkedTextElements1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteItalicTextElement10() (bool, error) {
-	log.Debug("SingleQuoteItalicTextEndDelimiter")
+func (c *current) onSingleQuoteMarkedTextElement10() (bool, error) {
+	log.Debug("SingleQuoteMarkedTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicTextElement10() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedTextElement10() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicTextElement10()
+	return p.cur.onSingleQuoteMarkedTextElement10()
 }
 
-func (c *current) onSingleQuoteItalicTextElement1(element interface{}) (interface{}, error) {
+func (c *current) onSingleQuoteMarkedTextElement1(element interface{}) (interface{}, error) {
 	c.trackElement(element)
 	return element, nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicTextElement1() (interface{}, error) {
+func (p *parser) callonSingleQuoteMarkedTextElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicTextElement1(stack["element"])
+	return p.cur.onSingleQuoteMarkedTextElement1(stack["element"])
 }
 
-func (c *current) onEscapedItalicText5() (interface{}, error) {
+func (c *current) onEscapedMarkedText5() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedItalicText5() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText5()
+	return p.cur.onEscapedMarkedText5()
 }
 
-func (c *current) onEscapedItalicText2(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
+func (c *current) onEscapedMarkedText2(backslashes, elements interface{}) (interface{}, error) {
+	return types.NewEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedItalicText2() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText2() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText2(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMarkedText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedItalicText17() (interface{}, error) {
+func (c *current) onEscapedMarkedText17() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedItalicText17() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText17() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText17()
+	return p.cur.onEscapedMarkedText17()
 }
 
-func (c *current) onEscapedItalicText14(backslashes, elements interface{}) (interface{}, error) {
-	// unbalanced `__` vs `_` punctuation
-	result := append([]interface{}{"_"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "_", result)
+func (c *current) onEscapedMarkedText14(backslashes, elements interface{}) (interface{}, error) {
+	result := append([]interface{}{"#"}, elements.([]interface{}))
+	return types.NewEscapedQuotedText(backslashes.(string), "#", result)
 
 }
 
-func (p *parser) callonEscapedItalicText14() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText14(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMarkedText14(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedItalicText27() (interface{}, error) {
+func (c *current) onEscapedMarkedText27() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedItalicText27() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText27()
+	return p.cur.onEscapedMarkedText27()
 }
 
-func (c *current) onEscapedItalicText24(backslashes, elements interface{}) (interface{}, error) {
-	// simple punctuation must be evaluated last
-	return types.NewEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
+func (c *current) onEscapedMarkedText24(backslashes, elements interface{}) (interface{}, error) {
+	return types.NewEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedItalicText24() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText24() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText24(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMarkedText24(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onDoubleQuoteMonospaceText1(elements interface{}) (interface{}, error) {
-
-	return types.NewQuotedText(types.DoubleQuoteMonospace, elements.([]interface{}))
+func (c *current) onSubscriptText1(element interface{}) (interface{}, error) {
+	// wraps a single word
+	return types.NewQuotedText(types.SingleQuoteSubscript, element)
 
 }
 
-func (p *parser) callonDoubleQuoteMonospaceText1() (interface{}, error) {
+func (p *parser) callonSubscriptText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteMonospaceText1(stack["elements"])
+	return p.cur.onSubscriptText1(stack["element"])
 }
 
-func (c *current) onDoubleQuoteMonospaceTextElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
-	return element, nil
+func (c *current) onSubscriptTextElement7() (interface{}, error) {
+	return c.text, nil
 
 }
 
-func (p *parser) callonDoubleQuoteMonospaceTextElement1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteMonospaceTextElement1(stack["element"])
+	return p.cur.onSubscriptTextElement7()
 }
 
-func (c *current) onSingleQuoteMonospaceTextEndDelimiter5() (bool, error) {
-	log.Debug("SingleQuoteMonospaceTextEndDelimiter")
-	return !c.isPrecededBySpace(), nil
+func (c *current) onSubscriptTextElement12() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceTextEndDelimiter5() (bool, error) {
+func (p *parser) callonSubscriptTextElement12() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextEndDelimiter5()
+	return p.cur.onSubscriptTextElement12()
 }
 
-func (c *current) onSingleQuoteMonospaceText4() (bool, error) {
-	log.Debug("SingleQuoteMonospaceTextStartDelimiter")
-	return c.isSingleQuotedTextAllowed(), nil
+func (c *current) onSubscriptTextElement14() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceText4() (bool, error) {
+func (p *parser) callonSubscriptTextElement14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceText4()
+	return p.cur.onSubscriptTextElement14()
 }
 
-func (c *current) onSingleQuoteMonospaceText1(elements interface{}) (interface{}, error) {
+func (c *current) onSubscriptTextElement10(element interface{}) (interface{}, error) {
+	return element, nil
 
-	return types.NewQuotedText(types.SingleQuoteMonospace, elements.([]interface{}))
+}
+
+func (p *parser) callonSubscriptTextElement10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement10(stack["element"])
+}
+
+func (c *current) onSubscriptTextElement18() (bool, error) {
+	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceText1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement18() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceText1(stack["elements"])
+	return p.cur.onSubscriptTextElement18()
 }
 
-func (c *current) onSingleQuoteMonospaceTextElements4() (interface{}, error) {
-
+func (c *current) onSubscriptTextElement25() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceTextElements4() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextElements4()
+	return p.cur.onSubscriptTextElement25()
 }
 
-func (c *current) onSingleQuoteMonospaceTextElements9(elements interface{}) (bool, error) {
-	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
+func (c *current) onSubscriptTextElement21(name interface{}) (interface{}, error) {
+
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceTextElements9() (bool, error) {
+func (p *parser) callonSubscriptTextElement21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextElements9(stack["elements"])
+	return p.cur.onSubscriptTextElement21(stack["name"])
 }
 
-func (c *current) onSingleQuoteMonospaceTextElements1(elements interface{}) (interface{}, error) {
-	return elements, nil
+func (c *current) onSubscriptTextElement35() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceTextElements1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextElements1(stack["elements"])
+	return p.cur.onSubscriptTextElement35()
 }
 
-func (c *current) onSingleQuoteMonospaceTextElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
-	return element, nil
+func (c *current) onSubscriptTextElement31(name interface{}) (interface{}, error) {
+
+	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceTextElement1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextElement1(stack["element"])
+	return p.cur.onSubscriptTextElement31(stack["name"])
 }
 
-func (c *current) onEscapedMonospaceText5() (interface{}, error) {
+func (c *current) onSubscriptTextElement45() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMonospaceText5() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText5()
+	return p.cur.onSubscriptTextElement45()
 }
 
-func (c *current) onEscapedMonospaceText2(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
+func (c *current) onSubscriptTextElement57() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMonospaceText2() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText2(stack["backslashes"], stack["elements"])
+	return p.cur.onSubscriptTextElement57()
 }
 
-func (c *current) onEscapedMonospaceText17() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSubscriptTextElement59() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonEscapedMonospaceText17() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText17()
+	return p.cur.onSubscriptTextElement59()
 }
 
-func (c *current) onEscapedMonospaceText14(backslashes, elements interface{}) (interface{}, error) {
-	result := append([]interface{}{"`"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "`", result)
+func (c *current) onSubscriptTextElement52(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonEscapedMonospaceText14() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText14(stack["backslashes"], stack["elements"])
+	return p.cur.onSubscriptTextElement52(stack["start"])
 }
 
-func (c *current) onEscapedMonospaceText27() (interface{}, error) {
-	return string(c.text), nil
-
+func (c *current) onSubscriptTextElement41(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonEscapedMonospaceText27() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText27()
+	return p.cur.onSubscriptTextElement41(stack["name"], stack["start"])
 }
 
-func (c *current) onEscapedMonospaceText24(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
+func (c *current) onSubscriptTextElement67() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMonospaceText24() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText24(stack["backslashes"], stack["elements"])
+	return p.cur.onSubscriptTextElement67()
 }
 
-func (c *current) onDoubleQuoteMarkedText1(elements interface{}) (interface{}, error) {
-
-	return types.NewQuotedText(types.DoubleQuoteMarked, elements.([]interface{}))
+func (c *current) onSubscriptTextElement79() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDoubleQuoteMarkedText1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteMarkedText1(stack["elements"])
+	return p.cur.onSubscriptTextElement79()
 }
 
-func (c *current) onDoubleQuoteMarkedTextElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
-	return element, nil
+func (c *current) onSubscriptTextElement81() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonDoubleQuoteMarkedTextElement1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuoteMarkedTextElement1(stack["element"])
+	return p.cur.onSubscriptTextElement81()
 }
 
-func (c *current) onSingleQuoteMarkedText4() (bool, error) {
-	log.Debug("SingleQuoteMarkedTextStartDelimiter")
-	return c.isSingleQuotedTextAllowed(), nil
+func (c *current) onSubscriptTextElement74(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedText4() (bool, error) {
+func (p *parser) callonSubscriptTextElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedText4()
+	return p.cur.onSubscriptTextElement74(stack["start"])
 }
 
-func (c *current) onSingleQuoteMarkedText13(elements interface{}) (bool, error) {
-	log.Debug("SingleQuoteMarkedTextEndDelimiter")
-	return !c.isPrecededBySpace(), nil
-
+func (c *current) onSubscriptTextElement63(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSingleQuoteMarkedText13() (bool, error) {
+func (p *parser) callonSubscriptTextElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedText13(stack["elements"])
+	return p.cur.onSubscriptTextElement63(stack["name"], stack["start"])
 }
 
-func (c *current) onSingleQuoteMarkedText1(elements interface{}) (interface{}, error) {
-
-	return types.NewQuotedText(types.SingleQuoteMarked, elements.([]interface{}))
+func (c *current) onSubscriptTextElement16(element interface{}) (interface{}, error) {
+	return element, nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedText1() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedText1(stack["elements"])
+	return p.cur.onSubscriptTextElement16(stack["element"])
 }
 
-func (c *current) onSingleQuoteMarkedTextElements4() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onSubscriptTextElement85() (interface{}, error) {
+	// when it is not substituted
+	return c.text, nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedTextElements4() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElements4()
+	return p.cur.onSubscriptTextElement85()
 }
 
-func (c *current) onSingleQuoteMarkedTextElements9(elements interface{}) (bool, error) {
-	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
+func (c *current) onSubscriptTextElement3(elements interface{}) (interface{}, error) {
+	// anything except spaces, EOL or '~'
+	return elements, nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedTextElements9() (bool, error) {
+func (p *parser) callonSubscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElements9(stack["elements"])
+	return p.cur.onSubscriptTextElement3(stack["elements"])
 }
 
-func (c *current) onSingleQuoteMarkedTextElements1(elements interface{}) (interface{}, error) {
-	return elements, nil
+func (c *current) onEscapedSubscriptText4() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedTextElements1() (interface{}, error) {
+func (p *parser) callonEscapedSubscriptText4() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElements1(stack["elements"])
+	return p.cur.onEscapedSubscriptText4()
 }
 
-func (c *current) onSingleQuoteMarkedTextElement10() (bool, error) {
-	log.Debug("SingleQuoteMarkedTextEndDelimiter")
-	return !c.isPrecededBySpace(), nil
+func (c *current) onEscapedSubscriptText1(backslashes, element interface{}) (interface{}, error) {
+	// simple punctuation must be evaluated last
+	return types.NewEscapedQuotedText(backslashes.(string), "~", element)
 
 }
 
-func (p *parser) callonSingleQuoteMarkedTextElement10() (bool, error) {
+func (p *parser) callonEscapedSubscriptText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElement10()
+	return p.cur.onEscapedSubscriptText1(stack["backslashes"], stack["element"])
 }
 
-func (c *current) onSingleQuoteMarkedTextElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
-	return element, nil
+func (c *current) onSuperscriptText1(element interface{}) (interface{}, error) {
+	// wraps a single word
+	return types.NewQuotedText(types.SingleQuoteSuperscript, element)
 
 }
 
-func (p *parser) callonSingleQuoteMarkedTextElement1() (interface{}, error) {
+func (p *parser) callonSuperscriptText1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElement1(stack["element"])
+	return p.cur.onSuperscriptText1(stack["element"])
 }
 
-func (c *current) onEscapedMarkedText5() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSuperscriptTextElement7() (interface{}, error) {
+	return c.text, nil
 
 }
 
-func (p *parser) callonEscapedMarkedText5() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText5()
+	return p.cur.onSuperscriptTextElement7()
 }
 
-func (c *current) onEscapedMarkedText2(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
+func (c *current) onSuperscriptTextElement12() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonEscapedMarkedText2() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement12() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText2(stack["backslashes"], stack["elements"])
+	return p.cur.onSuperscriptTextElement12()
 }
 
-func (c *current) onEscapedMarkedText17() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSuperscriptTextElement14() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonEscapedMarkedText17() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText17()
+	return p.cur.onSuperscriptTextElement14()
 }
 
-func (c *current) onEscapedMarkedText14(backslashes, elements interface{}) (interface{}, error) {
-	result := append([]interface{}{"#"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "#", result)
+func (c *current) onSuperscriptTextElement10(element interface{}) (interface{}, error) {
+	return element, nil
 
 }
 
-func (p *parser) callonEscapedMarkedText14() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement10() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText14(stack["backslashes"], stack["elements"])
+	return p.cur.onSuperscriptTextElement10(stack["element"])
 }
 
-func (c *current) onEscapedMarkedText27() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onSuperscriptTextElement18() (bool, error) {
+	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonEscapedMarkedText27() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement18() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText27()
+	return p.cur.onSuperscriptTextElement18()
 }
 
-func (c *current) onEscapedMarkedText24(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
+func (c *current) onSuperscriptTextElement25() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMarkedText24() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText24(stack["backslashes"], stack["elements"])
+	return p.cur.onSuperscriptTextElement25()
 }
 
-func (c *current) onSubscriptText1(element interface{}) (interface{}, error) {
-	// wraps a single word
-	return types.NewQuotedText(types.SingleQuoteSubscript, element)
+func (c *current) onSuperscriptTextElement21(name interface{}) (interface{}, error) {
+
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSubscriptText1() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptText1(stack["element"])
+	return p.cur.onSuperscriptTextElement21(stack["name"])
 }
 
-func (c *current) onSubscriptTextElement7() (interface{}, error) {
-	return c.text, nil
+func (c *current) onSuperscriptTextElement35() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSubscriptTextElement7() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement7()
+	return p.cur.onSuperscriptTextElement35()
 }
 
-func (c *current) onSubscriptTextElement12() (bool, error) {
-	return c.isSubstitutionEnabled(SpecialCharacters), nil
+func (c *current) onSuperscriptTextElement31(name interface{}) (interface{}, error) {
+
+	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSubscriptTextElement12() (bool, error) {
+func (p *parser) callonSuperscriptTextElement31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement12()
+	return p.cur.onSuperscriptTextElement31(stack["name"])
 }
 
-func (c *current) onSubscriptTextElement14() (interface{}, error) {
-	return types.NewSpecialCharacter(string(c.text))
+func (c *current) onSuperscriptTextElement45() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSubscriptTextElement14() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement14()
+	return p.cur.onSuperscriptTextElement45()
 }
 
-func (c *current) onSubscriptTextElement10(element interface{}) (interface{}, error) {
-	return element, nil
+func (c *current) onSuperscriptTextElement57() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSubscriptTextElement10() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement10(stack["element"])
+	return p.cur.onSuperscriptTextElement57()
 }
 
-func (c *current) onSubscriptTextElement16() (interface{}, error) {
-	// if the substitution of special characters is disabled
-	return c.text, nil
+func (c *current) onSuperscriptTextElement59() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSubscriptTextElement16() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement16()
+	return p.cur.onSuperscriptTextElement59()
 }
 
-func (c *current) onSubscriptTextElement3(elements interface{}) (interface{}, error) {
-	// anything except spaces, EOL or '~'
-	return elements, nil
+func (c *current) onSuperscriptTextElement52(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonSubscriptTextElement3() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement3(stack["elements"])
+	return p.cur.onSuperscriptTextElement52(stack["start"])
 }
 
-func (c *current) onEscapedSubscriptText4() (interface{}, error) {
-	return string(c.text), nil
-
+func (c *current) onSuperscriptTextElement41(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonEscapedSubscriptText4() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedSubscriptText4()
+	return p.cur.onSuperscriptTextElement41(stack["name"], stack["start"])
 }
 
-func (c *current) onEscapedSubscriptText1(backslashes, element interface{}) (interface{}, error) {
-	// simple punctuation must be evaluated last
-	return types.NewEscapedQuotedText(backslashes.(string), "~", element)
+func (c *current) onSuperscriptTextElement67() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedSubscriptText1() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedSubscriptText1(stack["backslashes"], stack["element"])
+	return p.cur.onSuperscriptTextElement67()
 }
 
-func (c *current) onSuperscriptText1(element interface{}) (interface{}, error) {
-	// wraps a single word
-	return types.NewQuotedText(types.SingleQuoteSuperscript, element)
+func (c *current) onSuperscriptTextElement79() (interface{}, error) {
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonSuperscriptText1() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptText1(stack["element"])
+	return p.cur.onSuperscriptTextElement79()
 }
 
-func (c *current) onSuperscriptTextElement7() (interface{}, error) {
-	return c.text, nil
+func (c *current) onSuperscriptTextElement81() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSuperscriptTextElement7() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement7()
+	return p.cur.onSuperscriptTextElement81()
 }
 
-func (c *current) onSuperscriptTextElement12() (bool, error) {
-	return c.isSubstitutionEnabled(SpecialCharacters), nil
+func (c *current) onSuperscriptTextElement74(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement12() (bool, error) {
+func (p *parser) callonSuperscriptTextElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement12()
+	return p.cur.onSuperscriptTextElement74(stack["start"])
 }
 
-func (c *current) onSuperscriptTextElement14() (interface{}, error) {
-	return types.NewSpecialCharacter(string(c.text))
-
+func (c *current) onSuperscriptTextElement63(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSuperscriptTextElement14() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement14()
+	return p.cur.onSuperscriptTextElement63(stack["name"], stack["start"])
 }
 
-func (c *current) onSuperscriptTextElement10(element interface{}) (interface{}, error) {
+func (c *current) onSuperscriptTextElement16(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement10() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement10(stack["element"])
+	return p.cur.onSuperscriptTextElement16(stack["element"])
 }
 
-func (c *current) onSuperscriptTextElement16() (interface{}, error) {
-	// if the substitution of special characters is disabled
+func (c *current) onSuperscriptTextElement85() (interface{}, error) {
+	// when it is not substituted
 	return c.text, nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement16() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement16()
+	return p.cur.onSuperscriptTextElement85()
 }
 
 func (c *current) onSuperscriptTextElement3(elements interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 97a8b6f..9f9e5f9 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2241,11 +2241,11 @@ NonSubscriptText <- elements:(NonSubscriptTextElement)+ { // anything except spa
     }
 
 NonSubscriptTextElement <-
-    [^\r\n ~<>&]+ {
+    [^\r\n ~<>&{\\]+ {
         return c.text, nil
     }
-    / SpecialCharacter
-    / [<>&] { // if the substitution of special characters is disabled
+    / SpecialCharacter / AttributeReference
+    / [<>&{\\] { // when it is not substituted
         return c.text, nil
     }
 
@@ -2277,11 +2277,11 @@ NonSuperscriptText <- elements:(NonSuperscriptTextElement)+ { // anything except
     }
 
 NonSuperscriptTextElement <-
-    [^\r\n ^<>&]+ {
+    [^\r\n ^<>&{\\]+ {
         return c.text, nil
     }
-    / SpecialCharacter
-    / [<>&] { // if the substitution of special characters is disabled
+    / SpecialCharacter / AttributeReference
+    / [<>&{\\] { // when it is not substituted
         return c.text, nil
     }
 
-- 
2.43.0


From d927aa5fc695c94d41ddccb670af39453fa76630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 47/76] fix: do not escape twice the special characters of the
 values of attributes

---
 ...document_processing_apply_substitutions.go | 51 ++++++++++++++++---
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index d3d1342..986dc1d 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -102,7 +102,7 @@ func applySubstitutionsOnDocumentHeader(ctx *ParseContext, b *types.DocumentHead
 
 // TODO: move that to "parse fragment" phase, ie, merge `AttributeDeclarationValueGroup` rule into `AttributeDeclarationValue`?
 func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.AttributeDeclaration, _ ...Option) error {
-	v, err := replaceAttributeRefsInValue(ctx, b.Value)
+	v, err := replaceAttributeRefsInValue(ctx, expandAttributeRefs(ctx, b.Value))
 	if err != nil {
 		return err
 	}
@@ -114,6 +114,27 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 	return nil
 }
 
+// expandAttributeRefs replaces the references to attributes whose value is made of multiple elements (eg: special characters)
+func expandAttributeRefs(ctx *ParseContext, value interface{}) interface{} {
+	elements, ok := value.([]interface{})
+	if !ok {
+		return value
+	}
+	result := make([]interface{}, 0, len(elements))
+	for _, e := range elements {
+		if ref, ok := e.(*types.AttributeReference); ok {
+			if v, found := ctx.attributes.get(ref.Name); found {
+				if v, ok := v.([]interface{}); ok {
+					result = append(result, v...)
+					continue
+				}
+			}
+		}
+		result = append(result, e)
+	}
+	return result
+}
+
 func applySubstitutionsOnAttributeReset(ctx *ParseContext, b *types.AttributeReset, _ ...Option) error {
 	ctx.attributes.unset(b.Name)
 	if b.Name == types.AttrExperimental {
@@ -381,7 +402,7 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 		case *types.StringElement:
 			result = append(result, e.Content)
 		case *types.AttributeReference:
-			v, _, err := valueForAttributeRef(ctx, e)
+			v, _, err := valueForAttributeRef(ctx, e, sgml.WithoutEscape()) // escaped when rendered
 			if err != nil {
 				return nil, err
 			}
@@ -459,7 +480,7 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.AttributeReference:
-			v, r, err := valueForAttributeRef(ctx, e)
+			v, r, err := valueForAttributeRef(ctx, e, valueOptions(ctx, e, subs)...)
 			if err != nil {
 				return nil, err
 			}
@@ -526,11 +547,29 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 	return elements, nil
 }
 
+// valueOptions returns the options to render the value of the given attribute in a text on which the given substitutions
+// remain to be applied
+func valueOptions(ctx *ParseContext, a *types.AttributeReference, subs *substitutions) []sgml.Option {
+	if subs == nil || !subs.contains(SpecialCharacters) {
+		return nil // needs to be escaped now
+	}
+	if v, found := ctx.attributes.get(a.Name); found {
+		if v, ok := v.([]interface{}); ok && len(v) > 0 {
+			if s, ok := v[0].(*types.StringElement); ok {
+				if i := strings.LastIndex(s.Content, "://"); i != -1 && !strings.Contains(s.Content[i:], " ") {
+					return nil // the location of a link is not escaped afterwards
+				}
+			}
+		}
+	}
+	return []sgml.Option{sgml.WithoutEscape()}
+}
+
 func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.AttributeReference:
-			v, _, err := valueForAttributeRef(ctx, e)
+			v, _, err := valueForAttributeRef(ctx, e, sgml.WithoutEscape()) // escaped when rendered
 			if err != nil {
 				return nil, err
 			}
@@ -557,7 +596,7 @@ func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) (
 	return elements, nil
 }
 
-func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (interface{}, bool, error) {
+func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference, opts ...sgml.Option) (interface{}, bool, error) {
 	v, found := ctx.attributes.get(a.Name)
 	if !found {
 		log.Warnf("unable to find entry for attribute with key '%s' in context", a.Name)
@@ -565,7 +604,7 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 	}
 	switch v := v.(type) {
 	case []interface{}:
-		s, err := sgml.RenderPlainText(v)
+		s, err := sgml.RenderPlainText(v, opts...)
 		return s, true, err
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
-- 
2.43.0


From 0261b7f9d4ccf65e6dd1b7b135b2eca6eb720529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 48/76] fix: preprocess the attributes as they are in the
 document: not in verbatim blocks, references replaced

---
 pkg/parser/document_preprocessing.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 1e15f80..195fbd7 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -54,10 +54,19 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes.set(e.Name, e.Value)
+				if !t.withinVerbatimBlock() {
+					// also, replace the references to other attributes
+					v, err := replaceAttributeRefsInValue(ctx, expandAttributeRefs(ctx, e.Value))
+					if err != nil {
+						return "", err
+					}
+					ctx.attributes.set(e.Name, v)
+				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
-				ctx.attributes.unset(e.Name)
+				if !t.withinVerbatimBlock() {
+					ctx.attributes.unset(e.Name)
+				}
 				b.WriteString(e.RawText())
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
@@ -123,6 +132,8 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	case len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == kind && t.stack[len(t.stack)-1].length == length:
 		// pop
 		t.stack = t.stack[:len(t.stack)-1]
+	case t.withinVerbatimBlock():
+		// not a delimiter, but a line of the content
 	default:
 		// push
 		t.stack = append(t.stack, blockDelimiter{
@@ -132,6 +143,19 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	}
 }
 
+// withinVerbatimBlock returns true if the current block does not contain other blocks (nor attribute declarations)
+func (t *blockDelimiterTracker) withinVerbatimBlock() bool {
+	if len(t.stack) == 0 {
+		return false
+	}
+	switch t.stack[len(t.stack)-1].kind {
+	case types.Comment, types.Fenced, types.Listing, types.Literal, types.Passthrough:
+		return true
+	default:
+		return false
+	}
+}
+
 func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
-- 
2.43.0


From cba57620cb1f12331a363c83a0bce9268d1c6d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 49/76] fix: do not let the document override the numbering of
 sections and the authors set in the configuration

---
 pkg/renderer/sgml/context.go | 15 ++++++++++++++-
 pkg/renderer/sgml/sgml.go    |  9 ++++++---
 pkg/types/types.go           | 26 +++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 3a73bbd..4b40226 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -35,7 +35,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx.setAttribute(types.AttrVersionLabel, "version")
 	// also, expand authors and revision
 	if header != nil {
-		if authors := header.Authors(); authors != nil {
+		if authors := ctx.authors(header); authors != nil {
 			ctx.setAttributes(authors.Expand())
 		}
 
@@ -61,6 +61,19 @@ func (ctx *context) setAttributes(attrs types.Attributes) {
 	}
 }
 
+// authors returns the authors in the given header, regardless of the declarations of the attributes which were already set
+// in the configuration
+func (ctx *context) authors(header *types.DocumentHeader) types.DocumentAuthors {
+	elements := make([]interface{}, 0, len(header.Elements))
+	for _, e := range header.Elements {
+		if e, ok := e.(*types.AttributeDeclaration); ok && ctx.config.Attributes.Has(e.Name) {
+			continue
+		}
+		elements = append(elements, e)
+	}
+	return (&types.DocumentHeader{Elements: elements}).Authors()
+}
+
 // unsetAttribute removes the attribute with the given name, unless it was set in the configuration.
 func (ctx *context) unsetAttribute(name string) {
 	if !ctx.config.Attributes.Has(name) {
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 3890984..de7c3c2 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -71,7 +71,7 @@ elements:
 			break elements
 		}
 	}
-	if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
+	if ctx.sectionNumbering, err = doc.SectionNumbers(ctx.config.Attributes); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 
@@ -289,9 +289,12 @@ func (r *sgmlRenderer) renderDocumentID(doc *types.Document) string {
 	return ""
 }
 
-func (r *sgmlRenderer) renderAuthors(_ *context, doc *types.Document) string { // TODO: pass header instead of doc
+func (r *sgmlRenderer) renderAuthors(ctx *context, doc *types.Document) string { // TODO: pass header instead of doc
+	if author, found := ctx.config.Attributes.GetAsString(types.AttrAuthor); found {
+		return author // cannot be changed by the document
+	}
 	if header, _ := doc.Header(); header != nil {
-		if a := header.Authors(); a != nil {
+		if a := ctx.authors(header); a != nil {
 			authorStrs := make([]string, len(a))
 			for i, author := range a {
 				authorStrs[i] = author.FullName()
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 04773dd..763cc95 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -150,7 +150,14 @@ func (d *Document) AddElement(element interface{}) error {
 
 type SectionNumbers map[string]string // assigned number by section id
 
-func (d *Document) SectionNumbers() (SectionNumbers, error) {
+// SectionNumbers returns the numbers of the sections, depending on the `sectnums` (or `numbered`) attribute,
+// which the document cannot change when it is already set in the (optional) given attributes of the configuration
+func (d *Document) SectionNumbers(config ...Attributes) (SectionNumbers, error) {
+	for _, attrs := range config {
+		if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
+			return numberSections(d.Elements, ""), nil
+		}
+	}
 	enabled := false
 	if header, _ := d.Header(); header != nil {
 		// lookup the `sectnums` or `numbered` attribute in the header
@@ -163,6 +170,23 @@ func (d *Document) SectionNumbers() (SectionNumbers, error) {
 	return numbers, err
 }
 
+// numberSections returns the numbers of all sections
+func numberSections(elements []interface{}, prefix string) SectionNumbers {
+	result := SectionNumbers{}
+	counter := 0
+	for _, e := range elements {
+		if s, ok := e.(*Section); ok {
+			counter++
+			n := prefix + strconv.Itoa(counter)
+			result[s.GetID()] = n
+			for id, n := range numberSections(s.Elements, n+".") {
+				result[id] = n
+			}
+		}
+	}
+	return result
+}
+
 func traverseElements(elements []interface{}, enabled bool, prefix string) (map[string]string, bool, error) {
 	result := map[string]string{}
 	counter := 0
-- 
2.43.0


From f865efc99c6065684e610090c3a733cc64541d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:16 +0000
Subject: [PATCH 50/76] fix: process the attributes of elements always in the
 same order, with their own substitutions

---
 ...document_processing_apply_substitutions.go | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 986dc1d..7d7906e 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -282,7 +283,8 @@ func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, o
 func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
-	for k, v := range attrs {
+	for _, k := range sortedKeys(attrs) {
+		v := attrs[k]
 		switch k {
 		case types.AttrTitle, types.AttrXRefLabel:
 			subs := attributeSubstitutions()
@@ -325,7 +327,8 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, subs *substitutions, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
-	for k, v := range attrs {
+	for _, k := range sortedKeys(attrs) {
+		v := attrs[k]
 		switch k {
 		case types.AttrTitle, types.AttrXRefLabel:
 			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
@@ -335,6 +338,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
+			subs := &substitutions{sequence: subs.sequence} // other attributes and elements may have inline macros
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
@@ -363,14 +367,24 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
 	var err error
-	for k, v := range attrs {
-		if attrs[k], err = replaceAttributeRefsInValue(ctx, v); err != nil {
+	for _, k := range sortedKeys(attrs) { // values may have counters, so the order matters
+		if attrs[k], err = replaceAttributeRefsInValue(ctx, attrs[k]); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
+// sortedKeys returns the keys of the given attributes, always in the same order
+func sortedKeys(attrs types.Attributes) []string {
+	keys := make([]string, 0, len(attrs))
+	for k := range attrs {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func replaceAttributeRefsInValue(ctx *ParseContext, value interface{}) (interface{}, error) {
 	var err error
 	switch value := value.(type) {
-- 
2.43.0


From 01ff122fb717353c83bf6f4ec887c2aa6501f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 51/76] fix: identify the sections uniquely, whatever the case
 and the other elements with the same id

---
 pkg/parser/document_processing_aggregate.go |  3 +-
 pkg/types/document_xrefs.go                 | 10 +++
 pkg/types/types.go                          | 72 ++++++++++-----------
 3 files changed, 46 insertions(+), 39 deletions(-)

diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index effabce..48927ac 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -26,6 +26,7 @@ func Aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment) (*types.Document, error) {
 	attrs := ctx.attributes
 	refs := types.ElementReferences{}
+	sectionIDs := map[string]struct{}{}
 	doc := &types.Document{}
 	// TODO: update `toc.MaxDepth` when `AttrTableOfContentsLevels` is declared afterwards
 	toc := types.NewTableOfContents(attrs.getAsIntWithDefault(types.AttrTableOfContentsLevels, 2))
@@ -74,7 +75,7 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 			case *types.BlankLine, *types.SinglelineComment:
 				// ignore
 			case *types.Section:
-				if err := e.ResolveID(attrs.allAttributes(), refs); err != nil {
+				if err := e.ResolveID(attrs.allAttributes(), refs, sectionIDs); err != nil {
 					return nil, err
 				}
 				toc.Add(e)
diff --git a/pkg/types/document_xrefs.go b/pkg/types/document_xrefs.go
index 4b807d6..d1e0c57 100644
--- a/pkg/types/document_xrefs.go
+++ b/pkg/types/document_xrefs.go
@@ -3,4 +3,14 @@ package types
 // ElementReferences the element references in the document
 type ElementReferences map[string]interface{}
 
+// add adds a reference to the element with the given ID and title (if it has any), unless there is one already
+func (r ElementReferences) add(id string, title interface{}) {
+	if id == "" || title == nil {
+		return
+	}
+	if _, exists := r[id]; !exists {
+		r[id] = title
+	}
+}
+
 // ElementReferencesCollector the visitor that traverses the whole document structure in search for elements with an ID
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 763cc95..5db7ca7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -900,9 +900,7 @@ var _ Referencable = &List{}
 func (l *List) Reference(refs ElementReferences) {
 	id := l.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := l.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, visit elements
 	for _, e := range l.Elements {
 		if e, ok := e.(Referencable); ok {
@@ -1124,9 +1122,7 @@ var _ Referencable = &CalloutListElement{}
 func (e *CalloutListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, visit elements
 	for _, e := range e.Elements {
 		if e, ok := e.(Referencable); ok {
@@ -1242,9 +1238,7 @@ var _ Referencable = &OrderedListElement{}
 func (e *OrderedListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, visit elements
 	for _, e := range e.Elements {
 		if e, ok := e.(Referencable); ok {
@@ -1381,9 +1375,7 @@ var _ Referencable = &UnorderedListElement{}
 func (e *UnorderedListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, visit elements
 	for _, e := range e.Elements {
 		if e, ok := e.(Referencable); ok {
@@ -1655,15 +1647,12 @@ var _ Referencable = &LabeledListElement{}
 func (e *LabeledListElement) Reference(refs ElementReferences) {
 	id := e.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := e.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, visit the term
 	if len(e.Term) > 0 {
 		if anchor, ok := e.Term[0].(*InlineLink); ok {
-			if id := anchor.Attributes.GetAsStringWithDefault(AttrID, ""); id != "" {
-				refs[id] = e.Term[1:]
-			}
+			id := anchor.Attributes.GetAsStringWithDefault(AttrID, "")
+			refs.add(id, e.Term[1:])
 		}
 	}
 	// also, visit elements
@@ -1848,9 +1837,7 @@ var _ Referencable = &Paragraph{}
 func (p *Paragraph) Reference(refs ElementReferences) {
 	id := p.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := p.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 }
 
 var _ WithFootnotes = &Paragraph{}
@@ -2078,10 +2065,8 @@ var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
-	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
-	if id != "" && title != "" {
-		refs[id] = title
-	}
+	title := i.Attributes[AttrTitle]
+	refs.add(id, title)
 }
 
 // InlineImage the structure for the inline image macros
@@ -2555,9 +2540,7 @@ var _ Referencable = &DelimitedBlock{}
 func (b *DelimitedBlock) Reference(refs ElementReferences) {
 	id := b.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := b.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, visit elements
 	for _, e := range b.Elements {
 		if e, ok := e.(Referencable); ok {
@@ -2684,7 +2667,8 @@ func (s *Section) SetAttributes(attributes Attributes) {
 }
 
 // ResolveID resolves/updates the "ID" attribute in the section (in case the title changed after some document attr substitution)
-func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
+// The ID is different from the ones of the given references and from the given (lower-case) IDs, to which it is added
+func (s *Section) ResolveID(attrs Attributes, refs ElementReferences, ids ...map[string]struct{}) error {
 	base, err := s.resolveID(attrs)
 	if err != nil {
 		return err
@@ -2697,12 +2681,26 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if _, exists := refs[id]; !exists {
-			s.Attributes[AttrID] = id
-			break
+		if _, exists := refs[id]; exists {
+			continue
 		}
+		if !reserve(strings.ToLower(id), ids) { // IDs of sections are in lower case once rendered
+			continue
+		}
+		s.Attributes[AttrID] = id
+		return nil
 	}
-	return nil
+}
+
+// reserve adds the given ID to the given ones, or returns `false` if it already exists
+func reserve(id string, ids []map[string]struct{}) bool {
+	for _, ids := range ids {
+		if _, exists := ids[id]; exists {
+			return false
+		}
+		ids[id] = struct{}{}
+	}
+	return true
 }
 
 // resolveID resolves/updates the "ID" attribute in the section (in case the title changed after some document attr substitution)
@@ -2730,8 +2728,8 @@ var _ Referencable = &Section{}
 
 func (s *Section) Reference(refs ElementReferences) {
 	id := s.Attributes.GetAsStringWithDefault(AttrID, "")
-	if id != "" && s.Title != nil {
-		refs[id] = s.Title
+	if s.Title != nil {
+		refs.add(id, s.Title)
 	}
 }
 
@@ -4079,9 +4077,7 @@ var _ Referencable = &Table{}
 func (t *Table) Reference(refs ElementReferences) {
 	id := t.Attributes.GetAsStringWithDefault(AttrID, "")
 	title := t.Attributes[AttrTitle]
-	if id != "" && title != nil {
-		refs[id] = title
-	}
+	refs.add(id, title)
 	// also, traverse all cells to find referencable content
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
-- 
2.43.0


From 54015fc8b1d2e43fa9bc228ded44e4112293b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 52/76] fix: refer to the sections and elements by the id they
 are rendered with, without nested links

---
 pkg/renderer/sgml/context.go               | 24 ++++++
 pkg/renderer/sgml/cross_reference.go       | 87 ++++++++++++++++------
 pkg/renderer/sgml/html5/cross_reference.go |  2 +-
 pkg/renderer/sgml/table_of_contents.go     |  6 +-
 4 files changed, 94 insertions(+), 25 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 4b40226..dec6332 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -1,6 +1,8 @@
 package sgml
 
 import (
+	"strings"
+
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 )
@@ -14,6 +16,7 @@ type context struct {
 	counters             map[string]int
 	attributes           types.Attributes
 	elementReferences    types.ElementReferences
+	sectionIDs           map[string]struct{} // in lower case, as they are rendered
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
 }
@@ -27,7 +30,9 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		attributes:        config.Attributes.Clone(), // the configuration (which may be shared) must not be altered while rendering
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
+		sectionIDs:        map[string]struct{}{},
 	}
+	ctx.addSectionIDs(doc.Elements)
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.setAttribute(types.AttrFigureCaption, "Figure")
 	ctx.setAttribute(types.AttrExampleCaption, "Example")
@@ -46,6 +51,25 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	return ctx
 }
 
+func (ctx *context) addSectionIDs(elements []interface{}) {
+	for _, e := range elements {
+		if s, ok := e.(*types.Section); ok {
+			ctx.sectionIDs[strings.ToLower(s.GetID())] = struct{}{}
+			ctx.addSectionIDs(s.Elements)
+		}
+	}
+}
+
+// hrefOf returns the ID of the target of a cross reference as it is rendered: in lower case if it is a section
+func (ctx *context) hrefOf(id string) string {
+	if lower := strings.ToLower(id); id != lower {
+		if _, found := ctx.sectionIDs[lower]; found {
+			return lower
+		}
+	}
+	return id
+}
+
 // setAttribute sets the attribute with the given name, unless it was already set in the configuration,
 // since such attributes take precedence over the ones defined in the document
 func (ctx *context) setAttribute(name string, value interface{}) {
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 65ad002..ca67583 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -2,7 +2,6 @@ package sgml
 
 import (
 	"path/filepath"
-	"strings"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 
@@ -27,25 +26,14 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		case string:
 			label = t
 		case []interface{}:
-			// render as usual except for links as plain text (since the cross reference is already displayed as a link)
-			buff := &strings.Builder{}
-			for _, e := range t {
-				switch e := e.(type) {
-				case *types.InlineLink:
-					renderedElement, err := RenderPlainText(e)
-					if err != nil {
-						return "", err
-					}
-					buff.WriteString(renderedElement)
-				default:
-					renderedElement, err := r.renderElement(ctx, e)
-					if err != nil {
-						return "", err
-					}
-					buff.WriteString(renderedElement)
-				}
+			// render as usual except for links and anchors (since the cross reference is already displayed as a link)
+			elements, err := referenceElements(t, false)
+			if err != nil {
+				return "", err
+			}
+			if label, err = r.renderElements(ctx, elements); err != nil {
+				return "", err
 			}
-			label = buff.String()
 		default:
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
@@ -56,7 +44,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		Href  string
 		Label string
 	}{
-		Href:  escapeAttribute(xrefID),
+		Href:  escapeAttribute(ctx.hrefOf(xrefID)),
 		Label: label,
 	})
 }
@@ -79,7 +67,7 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 		Href  string
 		Label string
 	}{
-		Href:  escapeAttribute(getCrossReferenceLocation(xref)),
+		Href:  escapeAttribute(getCrossReferenceLocation(ctx, xref)),
 		Label: label,
 	})
 }
@@ -93,11 +81,64 @@ func defaultXrefLabel(xref *types.ExternalCrossReference) string {
 	return loc[:len(loc)-len(ext)] + ".html"
 }
 
-func getCrossReferenceLocation(xref *types.ExternalCrossReference) string {
+func getCrossReferenceLocation(ctx *context, xref *types.ExternalCrossReference) string {
 	loc := xref.Location.ToDisplayString()
 	ext := filepath.Ext(loc)
 	if ext == "" { // internal reference
-		return "#" + loc
+		return "#" + ctx.hrefOf(loc)
 	}
 	return loc[:len(loc)-len(ext)] + ".html" // TODO output extension
 }
+
+// referenceElements returns the elements to render in a reference to the element with the given title: without links
+// since the reference is already a link, without footnotes (unless specified), and without IDs, which are the ones of the title itself
+func referenceElements(title []interface{}, footnotes bool) ([]interface{}, error) {
+	result := make([]interface{}, 0, len(title))
+	for _, e := range title {
+		switch e := e.(type) {
+		case *types.FootnoteReference:
+			if footnotes {
+				result = append(result, e)
+			}
+		case *types.InlineLink:
+			if e.Location == nil {
+				continue // an anchor
+			}
+			text, err := RenderPlainText(e, WithoutEscape())
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, &types.StringElement{Content: text})
+		case *types.QuotedText:
+			elements, err := referenceElements(e.Elements, footnotes)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, &types.QuotedText{
+				Kind:       e.Kind,
+				Elements:   elements,
+				Attributes: referenceAttributes(e.Attributes),
+			})
+		case *types.InlineImage:
+			result = append(result, &types.InlineImage{
+				Location:   e.Location,
+				Attributes: referenceAttributes(e.Attributes),
+			})
+		case *types.Icon:
+			result = append(result, &types.Icon{
+				Class:      e.Class,
+				Attributes: referenceAttributes(e.Attributes),
+			})
+		default:
+			result = append(result, e)
+		}
+	}
+	return result, nil
+}
+
+func referenceAttributes(attrs types.Attributes) types.Attributes {
+	result := attrs.Clone()
+	result.Unset(types.AttrID)
+	result.Unset(types.AttrInlineLink)
+	return result
+}
diff --git a/pkg/renderer/sgml/html5/cross_reference.go b/pkg/renderer/sgml/html5/cross_reference.go
index 7be4da8..0488cb2 100644
--- a/pkg/renderer/sgml/html5/cross_reference.go
+++ b/pkg/renderer/sgml/html5/cross_reference.go
@@ -1,6 +1,6 @@
 package html5
 
 const (
-	internalCrossReferenceTmpl = `<a href="#{{ toLower .Href }}">{{ .Label }}</a>`
+	internalCrossReferenceTmpl = `<a href="#{{ .Href }}">{{ .Label }}</a>`
 	externalCrossReferenceTmpl = `<a href="{{ .Href }}">{{ .Label }}</a>`
 )
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index ba14ddf..0a12ad7 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -49,7 +49,11 @@ func (r *sgmlRenderer) prerenderTableOfContentsEntry(ctx *context, entry *types.
 	}
 	switch s := s.(type) {
 	case []interface{}:
-		title, err := r.renderElements(ctx, s)
+		elements, err := referenceElements(s, true)
+		if err != nil {
+			return errors.Wrap(err, "unable to render table of contents entry title")
+		}
+		title, err := r.renderElements(ctx, elements)
 		if err != nil {
 			return errors.Wrap(err, "unable to render table of contents entry title (missing element reference")
 		}
-- 
2.43.0


From 7baf9e08097478a1334cebcd3ae9b2132573b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:11 +0000
Subject: [PATCH 53/76] fix: nest the table of contents as the sections,
 whatever their levels, and number sections below unnumbered ones

---
 pkg/renderer/sgml/cross_reference.go |  2 +-
 pkg/types/types.go                   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index ca67583..4ac704a 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -104,7 +104,7 @@ func referenceElements(title []interface{}, footnotes bool) ([]interface{}, erro
 			if e.Location == nil {
 				continue // an anchor
 			}
-			text, err := RenderPlainText(e, WithoutEscape())
+			text, err := RenderPlainText(e)
 			if err != nil {
 				return nil, err
 			}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 5db7ca7..121c6a0 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -208,7 +208,11 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 				n = prefix + strconv.Itoa(counter)
 				result[id] = n
 			}
-			numbers, en, err := traverseElements(e.Elements, enabled, n+".")
+			childPrefix := ""
+			if n != "" {
+				childPrefix = n + "."
+			}
+			numbers, en, err := traverseElements(e.Elements, enabled, childPrefix)
 			if err != nil {
 				return nil, false, err
 			}
@@ -271,7 +275,7 @@ func (t *TableOfContents) Add(s *Section) {
 	if len(t.Sections) == 0 {
 		t.Sections = []*ToCSection{ts}
 		return
-	} else if s.Level == t.Sections[0].Level {
+	} else if t.Sections[len(t.Sections)-1].Level >= s.Level {
 		// add at top level
 		t.Sections = append(t.Sections, ts)
 		return
@@ -280,8 +284,8 @@ func (t *TableOfContents) Add(s *Section) {
 	parent := t.Sections[len(t.Sections)-1]
 	for {
 		if len(parent.Children) == 0 ||
-			parent.Children[0].Level == s.Level {
-			// (first) child level matches section level
+			parent.Children[len(parent.Children)-1].Level >= s.Level {
+			// (last) child is not a parent of the section
 			// or no child beneath current parent
 			break
 		}
-- 
2.43.0


From 835c57dfa1bc33fda0642227b94faf26acc88eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:25 +0000
Subject: [PATCH 54/76] fix: keep the tables whose cells continue on other
 lines, and the text before the delimiter of the next cell

---
 .../document_processing_refine_fragments.go   |   23 +-
 pkg/parser/parser.go                          | 3632 +++++++++++------
 pkg/parser/parser.peg                         |   36 +-
 3 files changed, 2341 insertions(+), 1350 deletions(-)

diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 85ba121..fc887e0 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"io"
+	"strings"
 	"time"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -116,12 +117,24 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			}
 		}
 	default:
-		// wrap in a paragraph
-		c.Elements = []interface{}{
-			&types.Paragraph{
-				Elements: c.Elements,
-			},
+		// wrap in paragraphs (separated by blank lines)
+		p := &types.Paragraph{}
+		paragraphs := []interface{}{p}
+		for i, e := range c.Elements {
+			l, ok := e.(*types.RawLine)
+			if !ok || i == 0 || strings.TrimSpace(l.Content) != "" {
+				p.Elements = append(p.Elements, e)
+				continue
+			}
+			if len(p.Elements) > 0 {
+				if last, ok := p.Elements[len(p.Elements)-1].(*types.RawLine); ok {
+					last.Content = strings.TrimSuffix(last.Content, "\n")
+				}
+				p = &types.Paragraph{}
+				paragraphs = append(paragraphs, p)
+			}
 		}
+		c.Elements = paragraphs
 	}
 
 	return nil
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index c1f4802..aa9ec6a 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -9293,19 +9293,19 @@ var g = &grammar{
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 2634, col: 27, offset: 84031},
 																																expr: &actionExpr{
-																																	pos: position{line: 2639, col: 5, offset: 84106},
+																																	pos: position{line: 2639, col: 5, offset: 84157},
 																																	run: (*parser).callonDocumentFragment1166,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2639, col: 5, offset: 84106},
+																																		pos: position{line: 2639, col: 5, offset: 84157},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2639, col: 5, offset: 84106},
+																																				pos:        position{line: 2639, col: 5, offset: 84157},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2639, col: 9, offset: 84110},
+																																				pos: position{line: 2639, col: 9, offset: 84161},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2875, col: 10, offset: 90978},
 																																					run: (*parser).callonDocumentFragment1170,
@@ -9319,21 +9319,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2639, col: 16, offset: 84117},
+																																				pos:   position{line: 2639, col: 16, offset: 84168},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2645, col: 5, offset: 84317},
+																																					pos: position{line: 2645, col: 5, offset: 84339},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2645, col: 5, offset: 84317},
+																																						pos:   position{line: 2645, col: 5, offset: 84339},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 14, offset: 84326},
+																																							pos: position{line: 2645, col: 14, offset: 84348},
 																																							run: (*parser).callonDocumentFragment1175,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 14, offset: 84326},
+																																								pos: position{line: 2645, col: 14, offset: 84348},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 14, offset: 84326},
+																																									pos:        position{line: 2645, col: 14, offset: 84348},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9387,105 +9387,16 @@ var g = &grammar{
 																																},
 																															},
 																														},
-																													},
-																												},
-																											},
-																											&actionExpr{
-																												pos: position{line: 2651, col: 24, offset: 84462},
-																												run: (*parser).callonDocumentFragment1186,
-																												expr: &labeledExpr{
-																													pos:   position{line: 2651, col: 24, offset: 84462},
-																													label: "cells",
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2651, col: 30, offset: 84468},
-																														expr: &actionExpr{
-																															pos: position{line: 2656, col: 5, offset: 84544},
-																															run: (*parser).callonDocumentFragment1189,
+																														&andExpr{
+																															pos: position{line: 2634, col: 50, offset: 84054},
 																															expr: &seqExpr{
-																																pos: position{line: 2656, col: 5, offset: 84544},
+																																pos: position{line: 2634, col: 52, offset: 84056},
 																																exprs: []interface{}{
-																																	&notExpr{
-																																		pos: position{line: 2656, col: 5, offset: 84544},
-																																		expr: &choiceExpr{
-																																			pos: position{line: 2621, col: 22, offset: 83741},
-																																			alternatives: []interface{}{
-																																				&seqExpr{
-																																					pos: position{line: 2617, col: 19, offset: 83661},
-																																					exprs: []interface{}{
-																																						&litMatcher{
-																																							pos:        position{line: 2617, col: 19, offset: 83661},
-																																							val:        "|===",
-																																							ignoreCase: false,
-																																							want:       "\"|===\"",
-																																						},
-																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2617, col: 26, offset: 83668},
-																																							expr: &actionExpr{
-																																								pos: position{line: 2875, col: 10, offset: 90978},
-																																								run: (*parser).callonDocumentFragment1196,
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2875, col: 10, offset: 90978},
-																																									val:        "[\\t ]",
-																																									chars:      []rune{'\t', ' '},
-																																									ignoreCase: false,
-																																									inverted:   false,
-																																								},
-																																							},
-																																						},
-																																						&choiceExpr{
-																																							pos: position{line: 2897, col: 8, offset: 91376},
-																																							alternatives: []interface{}{
-																																								&actionExpr{
-																																									pos: position{line: 2884, col: 12, offset: 91149},
-																																									run: (*parser).callonDocumentFragment1199,
-																																									expr: &choiceExpr{
-																																										pos: position{line: 2884, col: 13, offset: 91150},
-																																										alternatives: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 13, offset: 91150},
-																																												val:        "\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\n\"",
-																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 20, offset: 91157},
-																																												val:        "\r\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\\n\"",
-																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2884, col: 29, offset: 91166},
-																																												val:        "\r",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\"",
-																																											},
-																																										},
-																																									},
-																																								},
-																																								&notExpr{
-																																									pos: position{line: 2894, col: 8, offset: 91326},
-																																									expr: &anyMatcher{
-																																										line: 2894, col: 9, offset: 91327,
-																																									},
-																																								},
-																																							},
-																																						},
-																																					},
-																																				},
-																																				&notExpr{
-																																					pos: position{line: 2894, col: 8, offset: 91326},
-																																					expr: &anyMatcher{
-																																						line: 2894, col: 9, offset: 91327,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																	&notExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84567},
+																																	&zeroOrMoreExpr{
+																																		pos: position{line: 2634, col: 52, offset: 84056},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21533},
-																																			run: (*parser).callonDocumentFragment1209,
+																																			run: (*parser).callonDocumentFragment1189,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21533},
 																																				exprs: []interface{}{
@@ -9499,7 +9410,7 @@ var g = &grammar{
 																																						pos: position{line: 677, col: 21, offset: 21540},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2875, col: 10, offset: 90978},
-																																							run: (*parser).callonDocumentFragment1214,
+																																							run: (*parser).callonDocumentFragment1194,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2875, col: 10, offset: 90978},
 																																								val:        "[\\t ]",
@@ -9514,7 +9425,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2884, col: 12, offset: 91149},
-																																								run: (*parser).callonDocumentFragment1217,
+																																								run: (*parser).callonDocumentFragment1197,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2884, col: 13, offset: 91150},
 																																									alternatives: []interface{}{
@@ -9551,229 +9462,243 @@ var g = &grammar{
 																																			},
 																																		},
 																																	},
-																																	&labeledExpr{
-																																		pos:   position{line: 2658, col: 5, offset: 84582},
-																																		label: "format",
-																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2658, col: 12, offset: 84589},
-																																			expr: &actionExpr{
-																																				pos: position{line: 2675, col: 20, offset: 85053},
-																																				run: (*parser).callonDocumentFragment1226,
-																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2675, col: 20, offset: 85053},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2675, col: 20, offset: 85053},
-																																						val:        "[^ |\\r\\n]",
-																																						chars:      []rune{' ', '|', '\r', '\n'},
+																																	&choiceExpr{
+																																		pos: position{line: 2634, col: 64, offset: 84068},
+																																		alternatives: []interface{}{
+																																			&seqExpr{
+																																				pos: position{line: 2617, col: 19, offset: 83661},
+																																				exprs: []interface{}{
+																																					&litMatcher{
+																																						pos:        position{line: 2617, col: 19, offset: 83661},
+																																						val:        "|===",
 																																						ignoreCase: false,
-																																						inverted:   true,
+																																						want:       "\"|===\"",
+																																					},
+																																					&zeroOrMoreExpr{
+																																						pos: position{line: 2617, col: 26, offset: 83668},
+																																						expr: &actionExpr{
+																																							pos: position{line: 2875, col: 10, offset: 90978},
+																																							run: (*parser).callonDocumentFragment1208,
+																																							expr: &charClassMatcher{
+																																								pos:        position{line: 2875, col: 10, offset: 90978},
+																																								val:        "[\\t ]",
+																																								chars:      []rune{'\t', ' '},
+																																								ignoreCase: false,
+																																								inverted:   false,
+																																							},
+																																						},
+																																					},
+																																					&choiceExpr{
+																																						pos: position{line: 2897, col: 8, offset: 91376},
+																																						alternatives: []interface{}{
+																																							&actionExpr{
+																																								pos: position{line: 2884, col: 12, offset: 91149},
+																																								run: (*parser).callonDocumentFragment1211,
+																																								expr: &choiceExpr{
+																																									pos: position{line: 2884, col: 13, offset: 91150},
+																																									alternatives: []interface{}{
+																																										&litMatcher{
+																																											pos:        position{line: 2884, col: 13, offset: 91150},
+																																											val:        "\n",
+																																											ignoreCase: false,
+																																											want:       "\"\\n\"",
+																																										},
+																																										&litMatcher{
+																																											pos:        position{line: 2884, col: 20, offset: 91157},
+																																											val:        "\r\n",
+																																											ignoreCase: false,
+																																											want:       "\"\\r\\n\"",
+																																										},
+																																										&litMatcher{
+																																											pos:        position{line: 2884, col: 29, offset: 91166},
+																																											val:        "\r",
+																																											ignoreCase: false,
+																																											want:       "\"\\r\"",
+																																										},
+																																									},
+																																								},
+																																							},
+																																							&notExpr{
+																																								pos: position{line: 2894, col: 8, offset: 91326},
+																																								expr: &anyMatcher{
+																																									line: 2894, col: 9, offset: 91327,
+																																								},
+																																							},
+																																						},
 																																					},
 																																				},
 																																			},
-																																		},
-																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2658, col: 31, offset: 84608},
-																																		val:        "|",
-																																		ignoreCase: false,
-																																		want:       "\"|\"",
-																																	},
-																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2658, col: 35, offset: 84612},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2875, col: 10, offset: 90978},
-																																			run: (*parser).callonDocumentFragment1231,
-																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2875, col: 10, offset: 90978},
-																																				val:        "[\\t ]",
-																																				chars:      []rune{'\t', ' '},
-																																				ignoreCase: false,
-																																				inverted:   false,
+																																			&notExpr{
+																																				pos: position{line: 2894, col: 8, offset: 91326},
+																																				expr: &anyMatcher{
+																																					line: 2894, col: 9, offset: 91327,
+																																				},
 																																			},
-																																		},
-																																	},
-																																	&zeroOrOneExpr{
-																																		pos: position{line: 2658, col: 42, offset: 84619},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2884, col: 12, offset: 91149},
-																																			run: (*parser).callonDocumentFragment1234,
-																																			expr: &choiceExpr{
-																																				pos: position{line: 2884, col: 13, offset: 91150},
-																																				alternatives: []interface{}{
-																																					&litMatcher{
-																																						pos:        position{line: 2884, col: 13, offset: 91150},
-																																						val:        "\n",
-																																						ignoreCase: false,
-																																						want:       "\"\\n\"",
+																																			&seqExpr{
+																																				pos: position{line: 2676, col: 19, offset: 85286},
+																																				exprs: []interface{}{
+																																					&zeroOrOneExpr{
+																																						pos: position{line: 2676, col: 19, offset: 85286},
+																																						expr: &seqExpr{
+																																							pos: position{line: 2676, col: 20, offset: 85287},
+																																							exprs: []interface{}{
+																																								&oneOrMoreExpr{
+																																									pos: position{line: 2676, col: 20, offset: 85287},
+																																									expr: &charClassMatcher{
+																																										pos:        position{line: 2676, col: 20, offset: 85287},
+																																										val:        "[.0-9]",
+																																										chars:      []rune{'.'},
+																																										ranges:     []rune{'0', '9'},
+																																										ignoreCase: false,
+																																										inverted:   false,
+																																									},
+																																								},
+																																								&charClassMatcher{
+																																									pos:        position{line: 2676, col: 28, offset: 85295},
+																																									val:        "[*+]",
+																																									chars:      []rune{'*', '+'},
+																																									ignoreCase: false,
+																																									inverted:   false,
+																																								},
+																																							},
+																																						},
 																																					},
-																																					&litMatcher{
-																																						pos:        position{line: 2884, col: 20, offset: 91157},
-																																						val:        "\r\n",
-																																						ignoreCase: false,
-																																						want:       "\"\\r\\n\"",
+																																					&zeroOrOneExpr{
+																																						pos: position{line: 2676, col: 35, offset: 85302},
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 2676, col: 35, offset: 85302},
+																																							val:        "[<^>]",
+																																							chars:      []rune{'<', '^', '>'},
+																																							ignoreCase: false,
+																																							inverted:   false,
+																																						},
+																																					},
+																																					&zeroOrOneExpr{
+																																						pos: position{line: 2676, col: 42, offset: 85309},
+																																						expr: &seqExpr{
+																																							pos: position{line: 2676, col: 43, offset: 85310},
+																																							exprs: []interface{}{
+																																								&litMatcher{
+																																									pos:        position{line: 2676, col: 43, offset: 85310},
+																																									val:        ".",
+																																									ignoreCase: false,
+																																									want:       "\".\"",
+																																								},
+																																								&charClassMatcher{
+																																									pos:        position{line: 2676, col: 47, offset: 85314},
+																																									val:        "[<^>]",
+																																									chars:      []rune{'<', '^', '>'},
+																																									ignoreCase: false,
+																																									inverted:   false,
+																																								},
+																																							},
+																																						},
+																																					},
+																																					&zeroOrOneExpr{
+																																						pos: position{line: 2676, col: 55, offset: 85322},
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 2676, col: 55, offset: 85322},
+																																							val:        "[a-z]",
+																																							ranges:     []rune{'a', 'z'},
+																																							ignoreCase: false,
+																																							inverted:   false,
+																																						},
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2884, col: 29, offset: 91166},
-																																						val:        "\r",
+																																						pos:        position{line: 2676, col: 62, offset: 85329},
+																																						val:        "|",
 																																						ignoreCase: false,
-																																						want:       "\"\\r\"",
+																																						want:       "\"|\"",
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
-																																	&labeledExpr{
-																																		pos:   position{line: 2658, col: 51, offset: 84628},
-																																		label: "content",
-																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2664, col: 5, offset: 84787},
-																																			expr: &actionExpr{
-																																				pos: position{line: 2665, col: 9, offset: 84797},
-																																				run: (*parser).callonDocumentFragment1241,
-																																				expr: &seqExpr{
-																																					pos: position{line: 2665, col: 9, offset: 84797},
-																																					exprs: []interface{}{
-																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84797},
-																																							expr: &choiceExpr{
-																																								pos: position{line: 2621, col: 22, offset: 83741},
-																																								alternatives: []interface{}{
-																																									&seqExpr{
-																																										pos: position{line: 2617, col: 19, offset: 83661},
-																																										exprs: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2617, col: 19, offset: 83661},
-																																												val:        "|===",
-																																												ignoreCase: false,
-																																												want:       "\"|===\"",
-																																											},
-																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2617, col: 26, offset: 83668},
-																																												expr: &actionExpr{
-																																													pos: position{line: 2875, col: 10, offset: 90978},
-																																													run: (*parser).callonDocumentFragment1248,
-																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2875, col: 10, offset: 90978},
-																																														val:        "[\\t ]",
-																																														chars:      []rune{'\t', ' '},
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																											&actionExpr{
+																												pos: position{line: 2653, col: 24, offset: 84541},
+																												run: (*parser).callonDocumentFragment1235,
+																												expr: &seqExpr{
+																													pos: position{line: 2653, col: 24, offset: 84541},
+																													exprs: []interface{}{
+																														&labeledExpr{
+																															pos:   position{line: 2653, col: 24, offset: 84541},
+																															label: "cells",
+																															expr: &zeroOrMoreExpr{
+																																pos: position{line: 2653, col: 30, offset: 84547},
+																																expr: &actionExpr{
+																																	pos: position{line: 2657, col: 24, offset: 84676},
+																																	run: (*parser).callonDocumentFragment1239,
+																																	expr: &seqExpr{
+																																		pos: position{line: 2657, col: 24, offset: 84676},
+																																		exprs: []interface{}{
+																																			&notExpr{
+																																				pos: position{line: 2657, col: 24, offset: 84676},
+																																				expr: &choiceExpr{
+																																					pos: position{line: 2621, col: 22, offset: 83741},
+																																					alternatives: []interface{}{
+																																						&seqExpr{
+																																							pos: position{line: 2617, col: 19, offset: 83661},
+																																							exprs: []interface{}{
+																																								&litMatcher{
+																																									pos:        position{line: 2617, col: 19, offset: 83661},
+																																									val:        "|===",
+																																									ignoreCase: false,
+																																									want:       "\"|===\"",
+																																								},
+																																								&zeroOrMoreExpr{
+																																									pos: position{line: 2617, col: 26, offset: 83668},
+																																									expr: &actionExpr{
+																																										pos: position{line: 2875, col: 10, offset: 90978},
+																																										run: (*parser).callonDocumentFragment1246,
+																																										expr: &charClassMatcher{
+																																											pos:        position{line: 2875, col: 10, offset: 90978},
+																																											val:        "[\\t ]",
+																																											chars:      []rune{'\t', ' '},
+																																											ignoreCase: false,
+																																											inverted:   false,
+																																										},
+																																									},
+																																								},
+																																								&choiceExpr{
+																																									pos: position{line: 2897, col: 8, offset: 91376},
+																																									alternatives: []interface{}{
+																																										&actionExpr{
+																																											pos: position{line: 2884, col: 12, offset: 91149},
+																																											run: (*parser).callonDocumentFragment1249,
+																																											expr: &choiceExpr{
+																																												pos: position{line: 2884, col: 13, offset: 91150},
+																																												alternatives: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2884, col: 13, offset: 91150},
+																																														val:        "\n",
 																																														ignoreCase: false,
-																																														inverted:   false,
+																																														want:       "\"\\n\"",
 																																													},
-																																												},
-																																											},
-																																											&choiceExpr{
-																																												pos: position{line: 2897, col: 8, offset: 91376},
-																																												alternatives: []interface{}{
-																																													&actionExpr{
-																																														pos: position{line: 2884, col: 12, offset: 91149},
-																																														run: (*parser).callonDocumentFragment1251,
-																																														expr: &choiceExpr{
-																																															pos: position{line: 2884, col: 13, offset: 91150},
-																																															alternatives: []interface{}{
-																																																&litMatcher{
-																																																	pos:        position{line: 2884, col: 13, offset: 91150},
-																																																	val:        "\n",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\n\"",
-																																																},
-																																																&litMatcher{
-																																																	pos:        position{line: 2884, col: 20, offset: 91157},
-																																																	val:        "\r\n",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\r\\n\"",
-																																																},
-																																																&litMatcher{
-																																																	pos:        position{line: 2884, col: 29, offset: 91166},
-																																																	val:        "\r",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\r\"",
-																																																},
-																																															},
-																																														},
+																																													&litMatcher{
+																																														pos:        position{line: 2884, col: 20, offset: 91157},
+																																														val:        "\r\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\\n\"",
 																																													},
-																																													&notExpr{
-																																														pos: position{line: 2894, col: 8, offset: 91326},
-																																														expr: &anyMatcher{
-																																															line: 2894, col: 9, offset: 91327,
-																																														},
+																																													&litMatcher{
+																																														pos:        position{line: 2884, col: 29, offset: 91166},
+																																														val:        "\r",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\"",
 																																													},
 																																												},
 																																											},
 																																										},
-																																									},
-																																									&notExpr{
-																																										pos: position{line: 2894, col: 8, offset: 91326},
-																																										expr: &anyMatcher{
-																																											line: 2894, col: 9, offset: 91327,
-																																										},
-																																									},
-																																								},
-																																							},
-																																						},
-																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84824},
-																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21533},
-																																								run: (*parser).callonDocumentFragment1261,
-																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21533},
-																																									exprs: []interface{}{
-																																										&andExpr{
-																																											pos: position{line: 2892, col: 11, offset: 91312},
+																																										&notExpr{
+																																											pos: position{line: 2894, col: 8, offset: 91326},
 																																											expr: &anyMatcher{
-																																												line: 2892, col: 13, offset: 91314,
-																																											},
-																																										},
-																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21540},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2875, col: 10, offset: 90978},
-																																												run: (*parser).callonDocumentFragment1266,
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2875, col: 10, offset: 90978},
-																																													val:        "[\\t ]",
-																																													chars:      []rune{'\t', ' '},
-																																													ignoreCase: false,
-																																													inverted:   false,
-																																												},
-																																											},
-																																										},
-																																										&choiceExpr{
-																																											pos: position{line: 2897, col: 8, offset: 91376},
-																																											alternatives: []interface{}{
-																																												&actionExpr{
-																																													pos: position{line: 2884, col: 12, offset: 91149},
-																																													run: (*parser).callonDocumentFragment1269,
-																																													expr: &choiceExpr{
-																																														pos: position{line: 2884, col: 13, offset: 91150},
-																																														alternatives: []interface{}{
-																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 13, offset: 91150},
-																																																val:        "\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 20, offset: 91157},
-																																																val:        "\r\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 29, offset: 91166},
-																																																val:        "\r",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\"",
-																																															},
-																																														},
-																																													},
-																																												},
-																																												&notExpr{
-																																													pos: position{line: 2894, col: 8, offset: 91326},
-																																													expr: &anyMatcher{
-																																														line: 2894, col: 9, offset: 91327,
-																																													},
-																																												},
+																																												line: 2894, col: 9, offset: 91327,
 																																											},
 																																										},
 																																									},
@@ -9781,66 +9706,138 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84843},
-																																							expr: &seqExpr{
-																																								pos: position{line: 2667, col: 11, offset: 84845},
-																																								exprs: []interface{}{
-																																									&labeledExpr{
-																																										pos:   position{line: 2667, col: 11, offset: 84845},
-																																										label: "format",
-																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2667, col: 18, offset: 84852},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2675, col: 20, offset: 85053},
-																																												run: (*parser).callonDocumentFragment1280,
-																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2675, col: 20, offset: 85053},
-																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2675, col: 20, offset: 85053},
-																																														val:        "[^ |\\r\\n]",
-																																														chars:      []rune{' ', '|', '\r', '\n'},
-																																														ignoreCase: false,
-																																														inverted:   true,
-																																													},
-																																												},
-																																											},
-																																										},
-																																									},
-																																									&litMatcher{
-																																										pos:        position{line: 2667, col: 37, offset: 84871},
-																																										val:        "|",
-																																										ignoreCase: false,
-																																										want:       "\"|\"",
-																																									},
+																																							pos: position{line: 2894, col: 8, offset: 91326},
+																																							expr: &anyMatcher{
+																																								line: 2894, col: 9, offset: 91327,
+																																							},
+																																						},
+																																					},
+																																				},
+																																			},
+																																			&labeledExpr{
+																																				pos:   position{line: 2657, col: 43, offset: 84695},
+																																				label: "format",
+																																				expr: &zeroOrOneExpr{
+																																					pos: position{line: 2657, col: 50, offset: 84702},
+																																					expr: &actionExpr{
+																																						pos: position{line: 2678, col: 20, offset: 85353},
+																																						run: (*parser).callonDocumentFragment1260,
+																																						expr: &zeroOrMoreExpr{
+																																							pos: position{line: 2678, col: 20, offset: 85353},
+																																							expr: &charClassMatcher{
+																																								pos:        position{line: 2678, col: 20, offset: 85353},
+																																								val:        "[^ |\\r\\n]",
+																																								chars:      []rune{' ', '|', '\r', '\n'},
+																																								ignoreCase: false,
+																																								inverted:   true,
+																																							},
+																																						},
+																																					},
+																																				},
+																																			},
+																																			&litMatcher{
+																																				pos:        position{line: 2657, col: 69, offset: 84721},
+																																				val:        "|",
+																																				ignoreCase: false,
+																																				want:       "\"|\"",
+																																			},
+																																			&zeroOrMoreExpr{
+																																				pos: position{line: 2657, col: 73, offset: 84725},
+																																				expr: &actionExpr{
+																																					pos: position{line: 2875, col: 10, offset: 90978},
+																																					run: (*parser).callonDocumentFragment1265,
+																																					expr: &charClassMatcher{
+																																						pos:        position{line: 2875, col: 10, offset: 90978},
+																																						val:        "[\\t ]",
+																																						chars:      []rune{'\t', ' '},
+																																						ignoreCase: false,
+																																						inverted:   false,
+																																					},
+																																				},
+																																			},
+																																			&labeledExpr{
+																																				pos:   position{line: 2657, col: 80, offset: 84732},
+																																				label: "content",
+																																				expr: &actionExpr{
+																																					pos: position{line: 2645, col: 5, offset: 84339},
+																																					run: (*parser).callonDocumentFragment1268,
+																																					expr: &labeledExpr{
+																																						pos:   position{line: 2645, col: 5, offset: 84339},
+																																						label: "content",
+																																						expr: &actionExpr{
+																																							pos: position{line: 2645, col: 14, offset: 84348},
+																																							run: (*parser).callonDocumentFragment1270,
+																																							expr: &zeroOrMoreExpr{
+																																								pos: position{line: 2645, col: 14, offset: 84348},
+																																								expr: &charClassMatcher{
+																																									pos:        position{line: 2645, col: 14, offset: 84348},
+																																									val:        "[^|\\r\\n]",
+																																									chars:      []rune{'|', '\r', '\n'},
+																																									ignoreCase: false,
+																																									inverted:   true,
 																																								},
 																																							},
 																																						},
-																																						&labeledExpr{
-																																							pos:   position{line: 2668, col: 9, offset: 84884},
-																																							label: "content",
-																																							expr: &actionExpr{
-																																								pos: position{line: 2668, col: 18, offset: 84893},
-																																								run: (*parser).callonDocumentFragment1285,
-																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2668, col: 18, offset: 84893},
+																																					},
+																																				},
+																																			},
+																																			&andExpr{
+																																				pos: position{line: 2657, col: 113, offset: 84765},
+																																				expr: &litMatcher{
+																																					pos:        position{line: 2657, col: 114, offset: 84766},
+																																					val:        "|",
+																																					ignoreCase: false,
+																																					want:       "\"|\"",
+																																				},
+																																			},
+																																		},
+																																	},
+																																},
+																															},
+																														},
+																														&labeledExpr{
+																															pos:   position{line: 2653, col: 53, offset: 84570},
+																															label: "last",
+																															expr: &actionExpr{
+																																pos: position{line: 2662, col: 5, offset: 84881},
+																																run: (*parser).callonDocumentFragment1276,
+																																expr: &seqExpr{
+																																	pos: position{line: 2662, col: 5, offset: 84881},
+																																	exprs: []interface{}{
+																																		&notExpr{
+																																			pos: position{line: 2662, col: 5, offset: 84881},
+																																			expr: &choiceExpr{
+																																				pos: position{line: 2621, col: 22, offset: 83741},
+																																				alternatives: []interface{}{
+																																					&seqExpr{
+																																						pos: position{line: 2617, col: 19, offset: 83661},
+																																						exprs: []interface{}{
+																																							&litMatcher{
+																																								pos:        position{line: 2617, col: 19, offset: 83661},
+																																								val:        "|===",
+																																								ignoreCase: false,
+																																								want:       "\"|===\"",
+																																							},
+																																							&zeroOrMoreExpr{
+																																								pos: position{line: 2617, col: 26, offset: 83668},
+																																								expr: &actionExpr{
+																																									pos: position{line: 2875, col: 10, offset: 90978},
+																																									run: (*parser).callonDocumentFragment1283,
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2668, col: 18, offset: 84893},
-																																										val:        "[^|\\r\\n]",
-																																										chars:      []rune{'|', '\r', '\n'},
+																																										pos:        position{line: 2875, col: 10, offset: 90978},
+																																										val:        "[\\t ]",
+																																										chars:      []rune{'\t', ' '},
 																																										ignoreCase: false,
-																																										inverted:   true,
+																																										inverted:   false,
 																																									},
 																																								},
 																																							},
-																																						},
-																																						&zeroOrOneExpr{
-																																							pos: position{line: 2670, col: 12, offset: 84955},
-																																							expr: &choiceExpr{
+																																							&choiceExpr{
 																																								pos: position{line: 2897, col: 8, offset: 91376},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
 																																										pos: position{line: 2884, col: 12, offset: 91149},
-																																										run: (*parser).callonDocumentFragment1290,
+																																										run: (*parser).callonDocumentFragment1286,
 																																										expr: &choiceExpr{
 																																											pos: position{line: 2884, col: 13, offset: 91150},
 																																											alternatives: []interface{}{
@@ -9875,6 +9872,396 @@ var g = &grammar{
 																																							},
 																																						},
 																																					},
+																																					&notExpr{
+																																						pos: position{line: 2894, col: 8, offset: 91326},
+																																						expr: &anyMatcher{
+																																							line: 2894, col: 9, offset: 91327,
+																																						},
+																																					},
+																																				},
+																																			},
+																																		},
+																																		&labeledExpr{
+																																			pos:   position{line: 2663, col: 5, offset: 84904},
+																																			label: "format",
+																																			expr: &zeroOrOneExpr{
+																																				pos: position{line: 2663, col: 12, offset: 84911},
+																																				expr: &actionExpr{
+																																					pos: position{line: 2678, col: 20, offset: 85353},
+																																					run: (*parser).callonDocumentFragment1297,
+																																					expr: &zeroOrMoreExpr{
+																																						pos: position{line: 2678, col: 20, offset: 85353},
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 2678, col: 20, offset: 85353},
+																																							val:        "[^ |\\r\\n]",
+																																							chars:      []rune{' ', '|', '\r', '\n'},
+																																							ignoreCase: false,
+																																							inverted:   true,
+																																						},
+																																					},
+																																				},
+																																			},
+																																		},
+																																		&litMatcher{
+																																			pos:        position{line: 2663, col: 31, offset: 84930},
+																																			val:        "|",
+																																			ignoreCase: false,
+																																			want:       "\"|\"",
+																																		},
+																																		&zeroOrMoreExpr{
+																																			pos: position{line: 2663, col: 35, offset: 84934},
+																																			expr: &actionExpr{
+																																				pos: position{line: 2875, col: 10, offset: 90978},
+																																				run: (*parser).callonDocumentFragment1302,
+																																				expr: &charClassMatcher{
+																																					pos:        position{line: 2875, col: 10, offset: 90978},
+																																					val:        "[\\t ]",
+																																					chars:      []rune{'\t', ' '},
+																																					ignoreCase: false,
+																																					inverted:   false,
+																																				},
+																																			},
+																																		},
+																																		&zeroOrOneExpr{
+																																			pos: position{line: 2663, col: 42, offset: 84941},
+																																			expr: &actionExpr{
+																																				pos: position{line: 2884, col: 12, offset: 91149},
+																																				run: (*parser).callonDocumentFragment1305,
+																																				expr: &choiceExpr{
+																																					pos: position{line: 2884, col: 13, offset: 91150},
+																																					alternatives: []interface{}{
+																																						&litMatcher{
+																																							pos:        position{line: 2884, col: 13, offset: 91150},
+																																							val:        "\n",
+																																							ignoreCase: false,
+																																							want:       "\"\\n\"",
+																																						},
+																																						&litMatcher{
+																																							pos:        position{line: 2884, col: 20, offset: 91157},
+																																							val:        "\r\n",
+																																							ignoreCase: false,
+																																							want:       "\"\\r\\n\"",
+																																						},
+																																						&litMatcher{
+																																							pos:        position{line: 2884, col: 29, offset: 91166},
+																																							val:        "\r",
+																																							ignoreCase: false,
+																																							want:       "\"\\r\"",
+																																						},
+																																					},
+																																				},
+																																			},
+																																		},
+																																		&labeledExpr{
+																																			pos:   position{line: 2663, col: 51, offset: 84950},
+																																			label: "content",
+																																			expr: &zeroOrMoreExpr{
+																																				pos: position{line: 2669, col: 5, offset: 85109},
+																																				expr: &actionExpr{
+																																					pos: position{line: 2670, col: 9, offset: 85119},
+																																					run: (*parser).callonDocumentFragment1312,
+																																					expr: &seqExpr{
+																																						pos: position{line: 2670, col: 9, offset: 85119},
+																																						exprs: []interface{}{
+																																							&notExpr{
+																																								pos: position{line: 2670, col: 9, offset: 85119},
+																																								expr: &seqExpr{
+																																									pos: position{line: 2670, col: 11, offset: 85121},
+																																									exprs: []interface{}{
+																																										&zeroOrMoreExpr{
+																																											pos: position{line: 2670, col: 11, offset: 85121},
+																																											expr: &actionExpr{
+																																												pos: position{line: 677, col: 14, offset: 21533},
+																																												run: (*parser).callonDocumentFragment1317,
+																																												expr: &seqExpr{
+																																													pos: position{line: 677, col: 14, offset: 21533},
+																																													exprs: []interface{}{
+																																														&andExpr{
+																																															pos: position{line: 2892, col: 11, offset: 91312},
+																																															expr: &anyMatcher{
+																																																line: 2892, col: 13, offset: 91314,
+																																															},
+																																														},
+																																														&zeroOrMoreExpr{
+																																															pos: position{line: 677, col: 21, offset: 21540},
+																																															expr: &actionExpr{
+																																																pos: position{line: 2875, col: 10, offset: 90978},
+																																																run: (*parser).callonDocumentFragment1322,
+																																																expr: &charClassMatcher{
+																																																	pos:        position{line: 2875, col: 10, offset: 90978},
+																																																	val:        "[\\t ]",
+																																																	chars:      []rune{'\t', ' '},
+																																																	ignoreCase: false,
+																																																	inverted:   false,
+																																																},
+																																															},
+																																														},
+																																														&choiceExpr{
+																																															pos: position{line: 2897, col: 8, offset: 91376},
+																																															alternatives: []interface{}{
+																																																&actionExpr{
+																																																	pos: position{line: 2884, col: 12, offset: 91149},
+																																																	run: (*parser).callonDocumentFragment1325,
+																																																	expr: &choiceExpr{
+																																																		pos: position{line: 2884, col: 13, offset: 91150},
+																																																		alternatives: []interface{}{
+																																																			&litMatcher{
+																																																				pos:        position{line: 2884, col: 13, offset: 91150},
+																																																				val:        "\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2884, col: 20, offset: 91157},
+																																																				val:        "\r\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2884, col: 29, offset: 91166},
+																																																				val:        "\r",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\"",
+																																																			},
+																																																		},
+																																																	},
+																																																},
+																																																&notExpr{
+																																																	pos: position{line: 2894, col: 8, offset: 91326},
+																																																	expr: &anyMatcher{
+																																																		line: 2894, col: 9, offset: 91327,
+																																																	},
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&choiceExpr{
+																																											pos: position{line: 2670, col: 23, offset: 85133},
+																																											alternatives: []interface{}{
+																																												&seqExpr{
+																																													pos: position{line: 2617, col: 19, offset: 83661},
+																																													exprs: []interface{}{
+																																														&litMatcher{
+																																															pos:        position{line: 2617, col: 19, offset: 83661},
+																																															val:        "|===",
+																																															ignoreCase: false,
+																																															want:       "\"|===\"",
+																																														},
+																																														&zeroOrMoreExpr{
+																																															pos: position{line: 2617, col: 26, offset: 83668},
+																																															expr: &actionExpr{
+																																																pos: position{line: 2875, col: 10, offset: 90978},
+																																																run: (*parser).callonDocumentFragment1336,
+																																																expr: &charClassMatcher{
+																																																	pos:        position{line: 2875, col: 10, offset: 90978},
+																																																	val:        "[\\t ]",
+																																																	chars:      []rune{'\t', ' '},
+																																																	ignoreCase: false,
+																																																	inverted:   false,
+																																																},
+																																															},
+																																														},
+																																														&choiceExpr{
+																																															pos: position{line: 2897, col: 8, offset: 91376},
+																																															alternatives: []interface{}{
+																																																&actionExpr{
+																																																	pos: position{line: 2884, col: 12, offset: 91149},
+																																																	run: (*parser).callonDocumentFragment1339,
+																																																	expr: &choiceExpr{
+																																																		pos: position{line: 2884, col: 13, offset: 91150},
+																																																		alternatives: []interface{}{
+																																																			&litMatcher{
+																																																				pos:        position{line: 2884, col: 13, offset: 91150},
+																																																				val:        "\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2884, col: 20, offset: 91157},
+																																																				val:        "\r\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2884, col: 29, offset: 91166},
+																																																				val:        "\r",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\"",
+																																																			},
+																																																		},
+																																																	},
+																																																},
+																																																&notExpr{
+																																																	pos: position{line: 2894, col: 8, offset: 91326},
+																																																	expr: &anyMatcher{
+																																																		line: 2894, col: 9, offset: 91327,
+																																																	},
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																												&notExpr{
+																																													pos: position{line: 2894, col: 8, offset: 91326},
+																																													expr: &anyMatcher{
+																																														line: 2894, col: 9, offset: 91327,
+																																													},
+																																												},
+																																												&seqExpr{
+																																													pos: position{line: 2676, col: 19, offset: 85286},
+																																													exprs: []interface{}{
+																																														&zeroOrOneExpr{
+																																															pos: position{line: 2676, col: 19, offset: 85286},
+																																															expr: &seqExpr{
+																																																pos: position{line: 2676, col: 20, offset: 85287},
+																																																exprs: []interface{}{
+																																																	&oneOrMoreExpr{
+																																																		pos: position{line: 2676, col: 20, offset: 85287},
+																																																		expr: &charClassMatcher{
+																																																			pos:        position{line: 2676, col: 20, offset: 85287},
+																																																			val:        "[.0-9]",
+																																																			chars:      []rune{'.'},
+																																																			ranges:     []rune{'0', '9'},
+																																																			ignoreCase: false,
+																																																			inverted:   false,
+																																																		},
+																																																	},
+																																																	&charClassMatcher{
+																																																		pos:        position{line: 2676, col: 28, offset: 85295},
+																																																		val:        "[*+]",
+																																																		chars:      []rune{'*', '+'},
+																																																		ignoreCase: false,
+																																																		inverted:   false,
+																																																	},
+																																																},
+																																															},
+																																														},
+																																														&zeroOrOneExpr{
+																																															pos: position{line: 2676, col: 35, offset: 85302},
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2676, col: 35, offset: 85302},
+																																																val:        "[<^>]",
+																																																chars:      []rune{'<', '^', '>'},
+																																																ignoreCase: false,
+																																																inverted:   false,
+																																															},
+																																														},
+																																														&zeroOrOneExpr{
+																																															pos: position{line: 2676, col: 42, offset: 85309},
+																																															expr: &seqExpr{
+																																																pos: position{line: 2676, col: 43, offset: 85310},
+																																																exprs: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2676, col: 43, offset: 85310},
+																																																		val:        ".",
+																																																		ignoreCase: false,
+																																																		want:       "\".\"",
+																																																	},
+																																																	&charClassMatcher{
+																																																		pos:        position{line: 2676, col: 47, offset: 85314},
+																																																		val:        "[<^>]",
+																																																		chars:      []rune{'<', '^', '>'},
+																																																		ignoreCase: false,
+																																																		inverted:   false,
+																																																	},
+																																																},
+																																															},
+																																														},
+																																														&zeroOrOneExpr{
+																																															pos: position{line: 2676, col: 55, offset: 85322},
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2676, col: 55, offset: 85322},
+																																																val:        "[a-z]",
+																																																ranges:     []rune{'a', 'z'},
+																																																ignoreCase: false,
+																																																inverted:   false,
+																																															},
+																																														},
+																																														&litMatcher{
+																																															pos:        position{line: 2676, col: 62, offset: 85329},
+																																															val:        "|",
+																																															ignoreCase: false,
+																																															want:       "\"|\"",
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																							&labeledExpr{
+																																								pos:   position{line: 2671, col: 9, offset: 85178},
+																																								label: "content",
+																																								expr: &actionExpr{
+																																									pos: position{line: 2645, col: 5, offset: 84339},
+																																									run: (*parser).callonDocumentFragment1364,
+																																									expr: &labeledExpr{
+																																										pos:   position{line: 2645, col: 5, offset: 84339},
+																																										label: "content",
+																																										expr: &actionExpr{
+																																											pos: position{line: 2645, col: 14, offset: 84348},
+																																											run: (*parser).callonDocumentFragment1366,
+																																											expr: &zeroOrMoreExpr{
+																																												pos: position{line: 2645, col: 14, offset: 84348},
+																																												expr: &charClassMatcher{
+																																													pos:        position{line: 2645, col: 14, offset: 84348},
+																																													val:        "[^|\\r\\n]",
+																																													chars:      []rune{'|', '\r', '\n'},
+																																													ignoreCase: false,
+																																													inverted:   true,
+																																												},
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																							&zeroOrOneExpr{
+																																								pos: position{line: 2671, col: 42, offset: 85211},
+																																								expr: &choiceExpr{
+																																									pos: position{line: 2897, col: 8, offset: 91376},
+																																									alternatives: []interface{}{
+																																										&actionExpr{
+																																											pos: position{line: 2884, col: 12, offset: 91149},
+																																											run: (*parser).callonDocumentFragment1371,
+																																											expr: &choiceExpr{
+																																												pos: position{line: 2884, col: 13, offset: 91150},
+																																												alternatives: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2884, col: 13, offset: 91150},
+																																														val:        "\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2884, col: 20, offset: 91157},
+																																														val:        "\r\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2884, col: 29, offset: 91166},
+																																														val:        "\r",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\"",
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2894, col: 8, offset: 91326},
+																																											expr: &anyMatcher{
+																																												line: 2894, col: 9, offset: 91327,
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
 																																				},
 																																			},
 																																		},
@@ -9891,7 +10278,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21533},
-																								run: (*parser).callonDocumentFragment1297,
+																								run: (*parser).callonDocumentFragment1378,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21533},
 																									exprs: []interface{}{
@@ -9905,7 +10292,7 @@ var g = &grammar{
 																											pos: position{line: 677, col: 21, offset: 21540},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonDocumentFragment1302,
+																												run: (*parser).callonDocumentFragment1383,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -9920,7 +10307,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonDocumentFragment1305,
+																													run: (*parser).callonDocumentFragment1386,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -9982,7 +10369,7 @@ var g = &grammar{
 																		pos: position{line: 2617, col: 26, offset: 83668},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment1316,
+																			run: (*parser).callonDocumentFragment1397,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -9997,7 +10384,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment1319,
+																				run: (*parser).callonDocumentFragment1400,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -10045,7 +10432,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2482, col: 22, offset: 79892},
-											run: (*parser).callonDocumentFragment1328,
+											run: (*parser).callonDocumentFragment1409,
 											expr: &seqExpr{
 												pos: position{line: 2482, col: 22, offset: 79892},
 												exprs: []interface{}{
@@ -10069,7 +10456,7 @@ var g = &grammar{
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2821, col: 13, offset: 89504},
-															run: (*parser).callonDocumentFragment1334,
+															run: (*parser).callonDocumentFragment1415,
 															expr: &zeroOrMoreExpr{
 																pos: position{line: 2821, col: 13, offset: 89504},
 																expr: &charClassMatcher{
@@ -10087,7 +10474,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentFragment1338,
+																run: (*parser).callonDocumentFragment1419,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -10125,20 +10512,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1222, col: 5, offset: 37910},
-											run: (*parser).callonDocumentFragment1345,
+											run: (*parser).callonDocumentFragment1426,
 											expr: &seqExpr{
 												pos: position{line: 1222, col: 5, offset: 37910},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1222, col: 5, offset: 37910},
-														run: (*parser).callonDocumentFragment1347,
+														run: (*parser).callonDocumentFragment1428,
 													},
 													&labeledExpr{
 														pos:   position{line: 1225, col: 5, offset: 37968},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1230, col: 20, offset: 38063},
-															run: (*parser).callonDocumentFragment1349,
+															run: (*parser).callonDocumentFragment1430,
 															expr: &seqExpr{
 																pos: position{line: 1230, col: 20, offset: 38063},
 																exprs: []interface{}{
@@ -10152,7 +10539,7 @@ var g = &grammar{
 																		pos: position{line: 1234, col: 36, offset: 38241},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment1353,
+																			run: (*parser).callonDocumentFragment1434,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -10167,7 +10554,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment1356,
+																				run: (*parser).callonDocumentFragment1437,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -10207,7 +10594,7 @@ var g = &grammar{
 																			pos: position{line: 1230, col: 53, offset: 38096},
 																			expr: &actionExpr{
 																				pos: position{line: 1236, col: 27, offset: 38279},
-																				run: (*parser).callonDocumentFragment1365,
+																				run: (*parser).callonDocumentFragment1446,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1236, col: 27, offset: 38279},
 																					expr: &oneOrMoreExpr{
@@ -10230,7 +10617,7 @@ var g = &grammar{
 																												pos: position{line: 1234, col: 36, offset: 38241},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment1373,
+																													run: (*parser).callonDocumentFragment1454,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -10245,7 +10632,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment1376,
+																														run: (*parser).callonDocumentFragment1457,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -10301,7 +10688,7 @@ var g = &grammar{
 																		pos: position{line: 1234, col: 36, offset: 38241},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment1386,
+																			run: (*parser).callonDocumentFragment1467,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -10316,7 +10703,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment1389,
+																				run: (*parser).callonDocumentFragment1470,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -10366,7 +10753,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7599},
-							run: (*parser).callonDocumentFragment1397,
+							run: (*parser).callonDocumentFragment1478,
 						},
 					},
 				},
@@ -35392,19 +35779,19 @@ var g = &grammar{
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 2634, col: 27, offset: 84031},
 																															expr: &actionExpr{
-																																pos: position{line: 2639, col: 5, offset: 84106},
+																																pos: position{line: 2639, col: 5, offset: 84157},
 																																run: (*parser).callonListContinuationElement1387,
 																																expr: &seqExpr{
-																																	pos: position{line: 2639, col: 5, offset: 84106},
+																																	pos: position{line: 2639, col: 5, offset: 84157},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2639, col: 5, offset: 84106},
+																																			pos:        position{line: 2639, col: 5, offset: 84157},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2639, col: 9, offset: 84110},
+																																			pos: position{line: 2639, col: 9, offset: 84161},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2875, col: 10, offset: 90978},
 																																				run: (*parser).callonListContinuationElement1391,
@@ -35418,21 +35805,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2639, col: 16, offset: 84117},
+																																			pos:   position{line: 2639, col: 16, offset: 84168},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2645, col: 5, offset: 84317},
+																																				pos: position{line: 2645, col: 5, offset: 84339},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2645, col: 5, offset: 84317},
+																																					pos:   position{line: 2645, col: 5, offset: 84339},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2645, col: 14, offset: 84326},
+																																						pos: position{line: 2645, col: 14, offset: 84348},
 																																						run: (*parser).callonListContinuationElement1396,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2645, col: 14, offset: 84326},
+																																							pos: position{line: 2645, col: 14, offset: 84348},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2645, col: 14, offset: 84326},
+																																								pos:        position{line: 2645, col: 14, offset: 84348},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35486,119 +35873,98 @@ var g = &grammar{
 																															},
 																														},
 																													},
-																												},
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 2651, col: 24, offset: 84462},
-																											run: (*parser).callonListContinuationElement1407,
-																											expr: &labeledExpr{
-																												pos:   position{line: 2651, col: 24, offset: 84462},
-																												label: "cells",
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2651, col: 30, offset: 84468},
-																													expr: &actionExpr{
-																														pos: position{line: 2656, col: 5, offset: 84544},
-																														run: (*parser).callonListContinuationElement1410,
+																													&andExpr{
+																														pos: position{line: 2634, col: 50, offset: 84054},
 																														expr: &seqExpr{
-																															pos: position{line: 2656, col: 5, offset: 84544},
+																															pos: position{line: 2634, col: 52, offset: 84056},
 																															exprs: []interface{}{
-																																&notExpr{
-																																	pos: position{line: 2656, col: 5, offset: 84544},
-																																	expr: &choiceExpr{
-																																		pos: position{line: 2621, col: 22, offset: 83741},
-																																		alternatives: []interface{}{
-																																			&seqExpr{
-																																				pos: position{line: 2617, col: 19, offset: 83661},
-																																				exprs: []interface{}{
-																																					&litMatcher{
-																																						pos:        position{line: 2617, col: 19, offset: 83661},
-																																						val:        "|===",
-																																						ignoreCase: false,
-																																						want:       "\"|===\"",
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 2634, col: 52, offset: 84056},
+																																	expr: &actionExpr{
+																																		pos: position{line: 677, col: 14, offset: 21533},
+																																		run: (*parser).callonListContinuationElement1410,
+																																		expr: &seqExpr{
+																																			pos: position{line: 677, col: 14, offset: 21533},
+																																			exprs: []interface{}{
+																																				&andExpr{
+																																					pos: position{line: 2892, col: 11, offset: 91312},
+																																					expr: &anyMatcher{
+																																						line: 2892, col: 13, offset: 91314,
 																																					},
-																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2617, col: 26, offset: 83668},
-																																						expr: &actionExpr{
-																																							pos: position{line: 2875, col: 10, offset: 90978},
-																																							run: (*parser).callonListContinuationElement1417,
-																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2875, col: 10, offset: 90978},
-																																								val:        "[\\t ]",
-																																								chars:      []rune{'\t', ' '},
-																																								ignoreCase: false,
-																																								inverted:   false,
-																																							},
+																																				},
+																																				&zeroOrMoreExpr{
+																																					pos: position{line: 677, col: 21, offset: 21540},
+																																					expr: &actionExpr{
+																																						pos: position{line: 2875, col: 10, offset: 90978},
+																																						run: (*parser).callonListContinuationElement1415,
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 2875, col: 10, offset: 90978},
+																																							val:        "[\\t ]",
+																																							chars:      []rune{'\t', ' '},
+																																							ignoreCase: false,
+																																							inverted:   false,
 																																						},
 																																					},
-																																					&choiceExpr{
-																																						pos: position{line: 2897, col: 8, offset: 91376},
-																																						alternatives: []interface{}{
-																																							&actionExpr{
-																																								pos: position{line: 2884, col: 12, offset: 91149},
-																																								run: (*parser).callonListContinuationElement1420,
-																																								expr: &choiceExpr{
-																																									pos: position{line: 2884, col: 13, offset: 91150},
-																																									alternatives: []interface{}{
-																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 13, offset: 91150},
-																																											val:        "\n",
-																																											ignoreCase: false,
-																																											want:       "\"\\n\"",
-																																										},
-																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 20, offset: 91157},
-																																											val:        "\r\n",
-																																											ignoreCase: false,
-																																											want:       "\"\\r\\n\"",
-																																										},
-																																										&litMatcher{
-																																											pos:        position{line: 2884, col: 29, offset: 91166},
-																																											val:        "\r",
-																																											ignoreCase: false,
-																																											want:       "\"\\r\"",
-																																										},
+																																				},
+																																				&choiceExpr{
+																																					pos: position{line: 2897, col: 8, offset: 91376},
+																																					alternatives: []interface{}{
+																																						&actionExpr{
+																																							pos: position{line: 2884, col: 12, offset: 91149},
+																																							run: (*parser).callonListContinuationElement1418,
+																																							expr: &choiceExpr{
+																																								pos: position{line: 2884, col: 13, offset: 91150},
+																																								alternatives: []interface{}{
+																																									&litMatcher{
+																																										pos:        position{line: 2884, col: 13, offset: 91150},
+																																										val:        "\n",
+																																										ignoreCase: false,
+																																										want:       "\"\\n\"",
+																																									},
+																																									&litMatcher{
+																																										pos:        position{line: 2884, col: 20, offset: 91157},
+																																										val:        "\r\n",
+																																										ignoreCase: false,
+																																										want:       "\"\\r\\n\"",
+																																									},
+																																									&litMatcher{
+																																										pos:        position{line: 2884, col: 29, offset: 91166},
+																																										val:        "\r",
+																																										ignoreCase: false,
+																																										want:       "\"\\r\"",
 																																									},
 																																								},
 																																							},
-																																							&notExpr{
-																																								pos: position{line: 2894, col: 8, offset: 91326},
-																																								expr: &anyMatcher{
-																																									line: 2894, col: 9, offset: 91327,
-																																								},
+																																						},
+																																						&notExpr{
+																																							pos: position{line: 2894, col: 8, offset: 91326},
+																																							expr: &anyMatcher{
+																																								line: 2894, col: 9, offset: 91327,
 																																							},
 																																						},
 																																					},
 																																				},
 																																			},
-																																			&notExpr{
-																																				pos: position{line: 2894, col: 8, offset: 91326},
-																																				expr: &anyMatcher{
-																																					line: 2894, col: 9, offset: 91327,
-																																				},
-																																			},
 																																		},
 																																	},
 																																},
-																																&notExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84567},
-																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21533},
-																																		run: (*parser).callonListContinuationElement1430,
-																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21533},
+																																&choiceExpr{
+																																	pos: position{line: 2634, col: 64, offset: 84068},
+																																	alternatives: []interface{}{
+																																		&seqExpr{
+																																			pos: position{line: 2617, col: 19, offset: 83661},
 																																			exprs: []interface{}{
-																																				&andExpr{
-																																					pos: position{line: 2892, col: 11, offset: 91312},
-																																					expr: &anyMatcher{
-																																						line: 2892, col: 13, offset: 91314,
-																																					},
+																																				&litMatcher{
+																																					pos:        position{line: 2617, col: 19, offset: 83661},
+																																					val:        "|===",
+																																					ignoreCase: false,
+																																					want:       "\"|===\"",
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21540},
+																																					pos: position{line: 2617, col: 26, offset: 83668},
 																																					expr: &actionExpr{
 																																						pos: position{line: 2875, col: 10, offset: 90978},
-																																						run: (*parser).callonListContinuationElement1435,
+																																						run: (*parser).callonListContinuationElement1429,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 2875, col: 10, offset: 90978},
 																																							val:        "[\\t ]",
@@ -35613,7 +35979,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 2884, col: 12, offset: 91149},
-																																							run: (*parser).callonListContinuationElement1438,
+																																							run: (*parser).callonListContinuationElement1432,
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2884, col: 13, offset: 91150},
 																																								alternatives: []interface{}{
@@ -35648,231 +36014,177 @@ var g = &grammar{
 																																				},
 																																			},
 																																		},
-																																	},
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 2658, col: 5, offset: 84582},
-																																	label: "format",
-																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2658, col: 12, offset: 84589},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2675, col: 20, offset: 85053},
-																																			run: (*parser).callonListContinuationElement1447,
-																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2675, col: 20, offset: 85053},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2675, col: 20, offset: 85053},
-																																					val:        "[^ |\\r\\n]",
-																																					chars:      []rune{' ', '|', '\r', '\n'},
-																																					ignoreCase: false,
-																																					inverted:   true,
-																																				},
+																																		&notExpr{
+																																			pos: position{line: 2894, col: 8, offset: 91326},
+																																			expr: &anyMatcher{
+																																				line: 2894, col: 9, offset: 91327,
 																																			},
 																																		},
-																																	},
-																																},
-																																&litMatcher{
-																																	pos:        position{line: 2658, col: 31, offset: 84608},
-																																	val:        "|",
-																																	ignoreCase: false,
-																																	want:       "\"|\"",
-																																},
-																																&zeroOrMoreExpr{
-																																	pos: position{line: 2658, col: 35, offset: 84612},
-																																	expr: &actionExpr{
-																																		pos: position{line: 2875, col: 10, offset: 90978},
-																																		run: (*parser).callonListContinuationElement1452,
-																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2875, col: 10, offset: 90978},
-																																			val:        "[\\t ]",
-																																			chars:      []rune{'\t', ' '},
-																																			ignoreCase: false,
-																																			inverted:   false,
-																																		},
-																																	},
-																																},
-																																&zeroOrOneExpr{
-																																	pos: position{line: 2658, col: 42, offset: 84619},
-																																	expr: &actionExpr{
-																																		pos: position{line: 2884, col: 12, offset: 91149},
-																																		run: (*parser).callonListContinuationElement1455,
-																																		expr: &choiceExpr{
-																																			pos: position{line: 2884, col: 13, offset: 91150},
-																																			alternatives: []interface{}{
-																																				&litMatcher{
-																																					pos:        position{line: 2884, col: 13, offset: 91150},
-																																					val:        "\n",
-																																					ignoreCase: false,
-																																					want:       "\"\\n\"",
+																																		&seqExpr{
+																																			pos: position{line: 2676, col: 19, offset: 85286},
+																																			exprs: []interface{}{
+																																				&zeroOrOneExpr{
+																																					pos: position{line: 2676, col: 19, offset: 85286},
+																																					expr: &seqExpr{
+																																						pos: position{line: 2676, col: 20, offset: 85287},
+																																						exprs: []interface{}{
+																																							&oneOrMoreExpr{
+																																								pos: position{line: 2676, col: 20, offset: 85287},
+																																								expr: &charClassMatcher{
+																																									pos:        position{line: 2676, col: 20, offset: 85287},
+																																									val:        "[.0-9]",
+																																									chars:      []rune{'.'},
+																																									ranges:     []rune{'0', '9'},
+																																									ignoreCase: false,
+																																									inverted:   false,
+																																								},
+																																							},
+																																							&charClassMatcher{
+																																								pos:        position{line: 2676, col: 28, offset: 85295},
+																																								val:        "[*+]",
+																																								chars:      []rune{'*', '+'},
+																																								ignoreCase: false,
+																																								inverted:   false,
+																																							},
+																																						},
+																																					},
 																																				},
-																																				&litMatcher{
-																																					pos:        position{line: 2884, col: 20, offset: 91157},
-																																					val:        "\r\n",
-																																					ignoreCase: false,
-																																					want:       "\"\\r\\n\"",
+																																				&zeroOrOneExpr{
+																																					pos: position{line: 2676, col: 35, offset: 85302},
+																																					expr: &charClassMatcher{
+																																						pos:        position{line: 2676, col: 35, offset: 85302},
+																																						val:        "[<^>]",
+																																						chars:      []rune{'<', '^', '>'},
+																																						ignoreCase: false,
+																																						inverted:   false,
+																																					},
+																																				},
+																																				&zeroOrOneExpr{
+																																					pos: position{line: 2676, col: 42, offset: 85309},
+																																					expr: &seqExpr{
+																																						pos: position{line: 2676, col: 43, offset: 85310},
+																																						exprs: []interface{}{
+																																							&litMatcher{
+																																								pos:        position{line: 2676, col: 43, offset: 85310},
+																																								val:        ".",
+																																								ignoreCase: false,
+																																								want:       "\".\"",
+																																							},
+																																							&charClassMatcher{
+																																								pos:        position{line: 2676, col: 47, offset: 85314},
+																																								val:        "[<^>]",
+																																								chars:      []rune{'<', '^', '>'},
+																																								ignoreCase: false,
+																																								inverted:   false,
+																																							},
+																																						},
+																																					},
+																																				},
+																																				&zeroOrOneExpr{
+																																					pos: position{line: 2676, col: 55, offset: 85322},
+																																					expr: &charClassMatcher{
+																																						pos:        position{line: 2676, col: 55, offset: 85322},
+																																						val:        "[a-z]",
+																																						ranges:     []rune{'a', 'z'},
+																																						ignoreCase: false,
+																																						inverted:   false,
+																																					},
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2884, col: 29, offset: 91166},
-																																					val:        "\r",
+																																					pos:        position{line: 2676, col: 62, offset: 85329},
+																																					val:        "|",
 																																					ignoreCase: false,
-																																					want:       "\"\\r\"",
+																																					want:       "\"|\"",
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
-																																&labeledExpr{
-																																	pos:   position{line: 2658, col: 51, offset: 84628},
-																																	label: "content",
-																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2664, col: 5, offset: 84787},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2665, col: 9, offset: 84797},
-																																			run: (*parser).callonListContinuationElement1462,
-																																			expr: &seqExpr{
-																																				pos: position{line: 2665, col: 9, offset: 84797},
-																																				exprs: []interface{}{
-																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84797},
-																																						expr: &choiceExpr{
-																																							pos: position{line: 2621, col: 22, offset: 83741},
-																																							alternatives: []interface{}{
-																																								&seqExpr{
-																																									pos: position{line: 2617, col: 19, offset: 83661},
-																																									exprs: []interface{}{
-																																										&litMatcher{
-																																											pos:        position{line: 2617, col: 19, offset: 83661},
-																																											val:        "|===",
-																																											ignoreCase: false,
-																																											want:       "\"|===\"",
-																																										},
-																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2617, col: 26, offset: 83668},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2875, col: 10, offset: 90978},
-																																												run: (*parser).callonListContinuationElement1469,
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2875, col: 10, offset: 90978},
-																																													val:        "[\\t ]",
-																																													chars:      []rune{'\t', ' '},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																										&actionExpr{
+																											pos: position{line: 2653, col: 24, offset: 84541},
+																											run: (*parser).callonListContinuationElement1456,
+																											expr: &seqExpr{
+																												pos: position{line: 2653, col: 24, offset: 84541},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 2653, col: 24, offset: 84541},
+																														label: "cells",
+																														expr: &zeroOrMoreExpr{
+																															pos: position{line: 2653, col: 30, offset: 84547},
+																															expr: &actionExpr{
+																																pos: position{line: 2657, col: 24, offset: 84676},
+																																run: (*parser).callonListContinuationElement1460,
+																																expr: &seqExpr{
+																																	pos: position{line: 2657, col: 24, offset: 84676},
+																																	exprs: []interface{}{
+																																		&notExpr{
+																																			pos: position{line: 2657, col: 24, offset: 84676},
+																																			expr: &choiceExpr{
+																																				pos: position{line: 2621, col: 22, offset: 83741},
+																																				alternatives: []interface{}{
+																																					&seqExpr{
+																																						pos: position{line: 2617, col: 19, offset: 83661},
+																																						exprs: []interface{}{
+																																							&litMatcher{
+																																								pos:        position{line: 2617, col: 19, offset: 83661},
+																																								val:        "|===",
+																																								ignoreCase: false,
+																																								want:       "\"|===\"",
+																																							},
+																																							&zeroOrMoreExpr{
+																																								pos: position{line: 2617, col: 26, offset: 83668},
+																																								expr: &actionExpr{
+																																									pos: position{line: 2875, col: 10, offset: 90978},
+																																									run: (*parser).callonListContinuationElement1467,
+																																									expr: &charClassMatcher{
+																																										pos:        position{line: 2875, col: 10, offset: 90978},
+																																										val:        "[\\t ]",
+																																										chars:      []rune{'\t', ' '},
+																																										ignoreCase: false,
+																																										inverted:   false,
+																																									},
+																																								},
+																																							},
+																																							&choiceExpr{
+																																								pos: position{line: 2897, col: 8, offset: 91376},
+																																								alternatives: []interface{}{
+																																									&actionExpr{
+																																										pos: position{line: 2884, col: 12, offset: 91149},
+																																										run: (*parser).callonListContinuationElement1470,
+																																										expr: &choiceExpr{
+																																											pos: position{line: 2884, col: 13, offset: 91150},
+																																											alternatives: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2884, col: 13, offset: 91150},
+																																													val:        "\n",
 																																													ignoreCase: false,
-																																													inverted:   false,
+																																													want:       "\"\\n\"",
 																																												},
-																																											},
-																																										},
-																																										&choiceExpr{
-																																											pos: position{line: 2897, col: 8, offset: 91376},
-																																											alternatives: []interface{}{
-																																												&actionExpr{
-																																													pos: position{line: 2884, col: 12, offset: 91149},
-																																													run: (*parser).callonListContinuationElement1472,
-																																													expr: &choiceExpr{
-																																														pos: position{line: 2884, col: 13, offset: 91150},
-																																														alternatives: []interface{}{
-																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 13, offset: 91150},
-																																																val:        "\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 20, offset: 91157},
-																																																val:        "\r\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2884, col: 29, offset: 91166},
-																																																val:        "\r",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\"",
-																																															},
-																																														},
-																																													},
+																																												&litMatcher{
+																																													pos:        position{line: 2884, col: 20, offset: 91157},
+																																													val:        "\r\n",
+																																													ignoreCase: false,
+																																													want:       "\"\\r\\n\"",
 																																												},
-																																												&notExpr{
-																																													pos: position{line: 2894, col: 8, offset: 91326},
-																																													expr: &anyMatcher{
-																																														line: 2894, col: 9, offset: 91327,
-																																													},
+																																												&litMatcher{
+																																													pos:        position{line: 2884, col: 29, offset: 91166},
+																																													val:        "\r",
+																																													ignoreCase: false,
+																																													want:       "\"\\r\"",
 																																												},
 																																											},
 																																										},
 																																									},
-																																								},
-																																								&notExpr{
-																																									pos: position{line: 2894, col: 8, offset: 91326},
-																																									expr: &anyMatcher{
-																																										line: 2894, col: 9, offset: 91327,
-																																									},
-																																								},
-																																							},
-																																						},
-																																					},
-																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84824},
-																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21533},
-																																							run: (*parser).callonListContinuationElement1482,
-																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21533},
-																																								exprs: []interface{}{
-																																									&andExpr{
-																																										pos: position{line: 2892, col: 11, offset: 91312},
+																																									&notExpr{
+																																										pos: position{line: 2894, col: 8, offset: 91326},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 13, offset: 91314,
-																																										},
-																																									},
-																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21540},
-																																										expr: &actionExpr{
-																																											pos: position{line: 2875, col: 10, offset: 90978},
-																																											run: (*parser).callonListContinuationElement1487,
-																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2875, col: 10, offset: 90978},
-																																												val:        "[\\t ]",
-																																												chars:      []rune{'\t', ' '},
-																																												ignoreCase: false,
-																																												inverted:   false,
-																																											},
-																																										},
-																																									},
-																																									&choiceExpr{
-																																										pos: position{line: 2897, col: 8, offset: 91376},
-																																										alternatives: []interface{}{
-																																											&actionExpr{
-																																												pos: position{line: 2884, col: 12, offset: 91149},
-																																												run: (*parser).callonListContinuationElement1490,
-																																												expr: &choiceExpr{
-																																													pos: position{line: 2884, col: 13, offset: 91150},
-																																													alternatives: []interface{}{
-																																														&litMatcher{
-																																															pos:        position{line: 2884, col: 13, offset: 91150},
-																																															val:        "\n",
-																																															ignoreCase: false,
-																																															want:       "\"\\n\"",
-																																														},
-																																														&litMatcher{
-																																															pos:        position{line: 2884, col: 20, offset: 91157},
-																																															val:        "\r\n",
-																																															ignoreCase: false,
-																																															want:       "\"\\r\\n\"",
-																																														},
-																																														&litMatcher{
-																																															pos:        position{line: 2884, col: 29, offset: 91166},
-																																															val:        "\r",
-																																															ignoreCase: false,
-																																															want:       "\"\\r\"",
-																																														},
-																																													},
-																																												},
-																																											},
-																																											&notExpr{
-																																												pos: position{line: 2894, col: 8, offset: 91326},
-																																												expr: &anyMatcher{
-																																													line: 2894, col: 9, offset: 91327,
-																																												},
-																																											},
+																																											line: 2894, col: 9, offset: 91327,
 																																										},
 																																									},
 																																								},
@@ -35880,66 +36192,138 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84843},
-																																						expr: &seqExpr{
-																																							pos: position{line: 2667, col: 11, offset: 84845},
-																																							exprs: []interface{}{
-																																								&labeledExpr{
-																																									pos:   position{line: 2667, col: 11, offset: 84845},
-																																									label: "format",
-																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2667, col: 18, offset: 84852},
-																																										expr: &actionExpr{
-																																											pos: position{line: 2675, col: 20, offset: 85053},
-																																											run: (*parser).callonListContinuationElement1501,
-																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2675, col: 20, offset: 85053},
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2675, col: 20, offset: 85053},
-																																													val:        "[^ |\\r\\n]",
-																																													chars:      []rune{' ', '|', '\r', '\n'},
-																																													ignoreCase: false,
-																																													inverted:   true,
-																																												},
-																																											},
-																																										},
-																																									},
-																																								},
-																																								&litMatcher{
-																																									pos:        position{line: 2667, col: 37, offset: 84871},
-																																									val:        "|",
-																																									ignoreCase: false,
-																																									want:       "\"|\"",
-																																								},
+																																						pos: position{line: 2894, col: 8, offset: 91326},
+																																						expr: &anyMatcher{
+																																							line: 2894, col: 9, offset: 91327,
+																																						},
+																																					},
+																																				},
+																																			},
+																																		},
+																																		&labeledExpr{
+																																			pos:   position{line: 2657, col: 43, offset: 84695},
+																																			label: "format",
+																																			expr: &zeroOrOneExpr{
+																																				pos: position{line: 2657, col: 50, offset: 84702},
+																																				expr: &actionExpr{
+																																					pos: position{line: 2678, col: 20, offset: 85353},
+																																					run: (*parser).callonListContinuationElement1481,
+																																					expr: &zeroOrMoreExpr{
+																																						pos: position{line: 2678, col: 20, offset: 85353},
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 2678, col: 20, offset: 85353},
+																																							val:        "[^ |\\r\\n]",
+																																							chars:      []rune{' ', '|', '\r', '\n'},
+																																							ignoreCase: false,
+																																							inverted:   true,
+																																						},
+																																					},
+																																				},
+																																			},
+																																		},
+																																		&litMatcher{
+																																			pos:        position{line: 2657, col: 69, offset: 84721},
+																																			val:        "|",
+																																			ignoreCase: false,
+																																			want:       "\"|\"",
+																																		},
+																																		&zeroOrMoreExpr{
+																																			pos: position{line: 2657, col: 73, offset: 84725},
+																																			expr: &actionExpr{
+																																				pos: position{line: 2875, col: 10, offset: 90978},
+																																				run: (*parser).callonListContinuationElement1486,
+																																				expr: &charClassMatcher{
+																																					pos:        position{line: 2875, col: 10, offset: 90978},
+																																					val:        "[\\t ]",
+																																					chars:      []rune{'\t', ' '},
+																																					ignoreCase: false,
+																																					inverted:   false,
+																																				},
+																																			},
+																																		},
+																																		&labeledExpr{
+																																			pos:   position{line: 2657, col: 80, offset: 84732},
+																																			label: "content",
+																																			expr: &actionExpr{
+																																				pos: position{line: 2645, col: 5, offset: 84339},
+																																				run: (*parser).callonListContinuationElement1489,
+																																				expr: &labeledExpr{
+																																					pos:   position{line: 2645, col: 5, offset: 84339},
+																																					label: "content",
+																																					expr: &actionExpr{
+																																						pos: position{line: 2645, col: 14, offset: 84348},
+																																						run: (*parser).callonListContinuationElement1491,
+																																						expr: &zeroOrMoreExpr{
+																																							pos: position{line: 2645, col: 14, offset: 84348},
+																																							expr: &charClassMatcher{
+																																								pos:        position{line: 2645, col: 14, offset: 84348},
+																																								val:        "[^|\\r\\n]",
+																																								chars:      []rune{'|', '\r', '\n'},
+																																								ignoreCase: false,
+																																								inverted:   true,
 																																							},
 																																						},
 																																					},
-																																					&labeledExpr{
-																																						pos:   position{line: 2668, col: 9, offset: 84884},
-																																						label: "content",
-																																						expr: &actionExpr{
-																																							pos: position{line: 2668, col: 18, offset: 84893},
-																																							run: (*parser).callonListContinuationElement1506,
-																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2668, col: 18, offset: 84893},
+																																				},
+																																			},
+																																		},
+																																		&andExpr{
+																																			pos: position{line: 2657, col: 113, offset: 84765},
+																																			expr: &litMatcher{
+																																				pos:        position{line: 2657, col: 114, offset: 84766},
+																																				val:        "|",
+																																				ignoreCase: false,
+																																				want:       "\"|\"",
+																																			},
+																																		},
+																																	},
+																																},
+																															},
+																														},
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 2653, col: 53, offset: 84570},
+																														label: "last",
+																														expr: &actionExpr{
+																															pos: position{line: 2662, col: 5, offset: 84881},
+																															run: (*parser).callonListContinuationElement1497,
+																															expr: &seqExpr{
+																																pos: position{line: 2662, col: 5, offset: 84881},
+																																exprs: []interface{}{
+																																	&notExpr{
+																																		pos: position{line: 2662, col: 5, offset: 84881},
+																																		expr: &choiceExpr{
+																																			pos: position{line: 2621, col: 22, offset: 83741},
+																																			alternatives: []interface{}{
+																																				&seqExpr{
+																																					pos: position{line: 2617, col: 19, offset: 83661},
+																																					exprs: []interface{}{
+																																						&litMatcher{
+																																							pos:        position{line: 2617, col: 19, offset: 83661},
+																																							val:        "|===",
+																																							ignoreCase: false,
+																																							want:       "\"|===\"",
+																																						},
+																																						&zeroOrMoreExpr{
+																																							pos: position{line: 2617, col: 26, offset: 83668},
+																																							expr: &actionExpr{
+																																								pos: position{line: 2875, col: 10, offset: 90978},
+																																								run: (*parser).callonListContinuationElement1504,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2668, col: 18, offset: 84893},
-																																									val:        "[^|\\r\\n]",
-																																									chars:      []rune{'|', '\r', '\n'},
+																																									pos:        position{line: 2875, col: 10, offset: 90978},
+																																									val:        "[\\t ]",
+																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
-																																									inverted:   true,
+																																									inverted:   false,
 																																								},
 																																							},
 																																						},
-																																					},
-																																					&zeroOrOneExpr{
-																																						pos: position{line: 2670, col: 12, offset: 84955},
-																																						expr: &choiceExpr{
+																																						&choiceExpr{
 																																							pos: position{line: 2897, col: 8, offset: 91376},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
 																																									pos: position{line: 2884, col: 12, offset: 91149},
-																																									run: (*parser).callonListContinuationElement1511,
+																																									run: (*parser).callonListContinuationElement1507,
 																																									expr: &choiceExpr{
 																																										pos: position{line: 2884, col: 13, offset: 91150},
 																																										alternatives: []interface{}{
@@ -35974,6 +36358,396 @@ var g = &grammar{
 																																						},
 																																					},
 																																				},
+																																				&notExpr{
+																																					pos: position{line: 2894, col: 8, offset: 91326},
+																																					expr: &anyMatcher{
+																																						line: 2894, col: 9, offset: 91327,
+																																					},
+																																				},
+																																			},
+																																		},
+																																	},
+																																	&labeledExpr{
+																																		pos:   position{line: 2663, col: 5, offset: 84904},
+																																		label: "format",
+																																		expr: &zeroOrOneExpr{
+																																			pos: position{line: 2663, col: 12, offset: 84911},
+																																			expr: &actionExpr{
+																																				pos: position{line: 2678, col: 20, offset: 85353},
+																																				run: (*parser).callonListContinuationElement1518,
+																																				expr: &zeroOrMoreExpr{
+																																					pos: position{line: 2678, col: 20, offset: 85353},
+																																					expr: &charClassMatcher{
+																																						pos:        position{line: 2678, col: 20, offset: 85353},
+																																						val:        "[^ |\\r\\n]",
+																																						chars:      []rune{' ', '|', '\r', '\n'},
+																																						ignoreCase: false,
+																																						inverted:   true,
+																																					},
+																																				},
+																																			},
+																																		},
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2663, col: 31, offset: 84930},
+																																		val:        "|",
+																																		ignoreCase: false,
+																																		want:       "\"|\"",
+																																	},
+																																	&zeroOrMoreExpr{
+																																		pos: position{line: 2663, col: 35, offset: 84934},
+																																		expr: &actionExpr{
+																																			pos: position{line: 2875, col: 10, offset: 90978},
+																																			run: (*parser).callonListContinuationElement1523,
+																																			expr: &charClassMatcher{
+																																				pos:        position{line: 2875, col: 10, offset: 90978},
+																																				val:        "[\\t ]",
+																																				chars:      []rune{'\t', ' '},
+																																				ignoreCase: false,
+																																				inverted:   false,
+																																			},
+																																		},
+																																	},
+																																	&zeroOrOneExpr{
+																																		pos: position{line: 2663, col: 42, offset: 84941},
+																																		expr: &actionExpr{
+																																			pos: position{line: 2884, col: 12, offset: 91149},
+																																			run: (*parser).callonListContinuationElement1526,
+																																			expr: &choiceExpr{
+																																				pos: position{line: 2884, col: 13, offset: 91150},
+																																				alternatives: []interface{}{
+																																					&litMatcher{
+																																						pos:        position{line: 2884, col: 13, offset: 91150},
+																																						val:        "\n",
+																																						ignoreCase: false,
+																																						want:       "\"\\n\"",
+																																					},
+																																					&litMatcher{
+																																						pos:        position{line: 2884, col: 20, offset: 91157},
+																																						val:        "\r\n",
+																																						ignoreCase: false,
+																																						want:       "\"\\r\\n\"",
+																																					},
+																																					&litMatcher{
+																																						pos:        position{line: 2884, col: 29, offset: 91166},
+																																						val:        "\r",
+																																						ignoreCase: false,
+																																						want:       "\"\\r\"",
+																																					},
+																																				},
+																																			},
+																																		},
+																																	},
+																																	&labeledExpr{
+																																		pos:   position{line: 2663, col: 51, offset: 84950},
+																																		label: "content",
+																																		expr: &zeroOrMoreExpr{
+																																			pos: position{line: 2669, col: 5, offset: 85109},
+																																			expr: &actionExpr{
+																																				pos: position{line: 2670, col: 9, offset: 85119},
+																																				run: (*parser).callonListContinuationElement1533,
+																																				expr: &seqExpr{
+																																					pos: position{line: 2670, col: 9, offset: 85119},
+																																					exprs: []interface{}{
+																																						&notExpr{
+																																							pos: position{line: 2670, col: 9, offset: 85119},
+																																							expr: &seqExpr{
+																																								pos: position{line: 2670, col: 11, offset: 85121},
+																																								exprs: []interface{}{
+																																									&zeroOrMoreExpr{
+																																										pos: position{line: 2670, col: 11, offset: 85121},
+																																										expr: &actionExpr{
+																																											pos: position{line: 677, col: 14, offset: 21533},
+																																											run: (*parser).callonListContinuationElement1538,
+																																											expr: &seqExpr{
+																																												pos: position{line: 677, col: 14, offset: 21533},
+																																												exprs: []interface{}{
+																																													&andExpr{
+																																														pos: position{line: 2892, col: 11, offset: 91312},
+																																														expr: &anyMatcher{
+																																															line: 2892, col: 13, offset: 91314,
+																																														},
+																																													},
+																																													&zeroOrMoreExpr{
+																																														pos: position{line: 677, col: 21, offset: 21540},
+																																														expr: &actionExpr{
+																																															pos: position{line: 2875, col: 10, offset: 90978},
+																																															run: (*parser).callonListContinuationElement1543,
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2875, col: 10, offset: 90978},
+																																																val:        "[\\t ]",
+																																																chars:      []rune{'\t', ' '},
+																																																ignoreCase: false,
+																																																inverted:   false,
+																																															},
+																																														},
+																																													},
+																																													&choiceExpr{
+																																														pos: position{line: 2897, col: 8, offset: 91376},
+																																														alternatives: []interface{}{
+																																															&actionExpr{
+																																																pos: position{line: 2884, col: 12, offset: 91149},
+																																																run: (*parser).callonListContinuationElement1546,
+																																																expr: &choiceExpr{
+																																																	pos: position{line: 2884, col: 13, offset: 91150},
+																																																	alternatives: []interface{}{
+																																																		&litMatcher{
+																																																			pos:        position{line: 2884, col: 13, offset: 91150},
+																																																			val:        "\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2884, col: 20, offset: 91157},
+																																																			val:        "\r\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2884, col: 29, offset: 91166},
+																																																			val:        "\r",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\"",
+																																																		},
+																																																	},
+																																																},
+																																															},
+																																															&notExpr{
+																																																pos: position{line: 2894, col: 8, offset: 91326},
+																																																expr: &anyMatcher{
+																																																	line: 2894, col: 9, offset: 91327,
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&choiceExpr{
+																																										pos: position{line: 2670, col: 23, offset: 85133},
+																																										alternatives: []interface{}{
+																																											&seqExpr{
+																																												pos: position{line: 2617, col: 19, offset: 83661},
+																																												exprs: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2617, col: 19, offset: 83661},
+																																														val:        "|===",
+																																														ignoreCase: false,
+																																														want:       "\"|===\"",
+																																													},
+																																													&zeroOrMoreExpr{
+																																														pos: position{line: 2617, col: 26, offset: 83668},
+																																														expr: &actionExpr{
+																																															pos: position{line: 2875, col: 10, offset: 90978},
+																																															run: (*parser).callonListContinuationElement1557,
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2875, col: 10, offset: 90978},
+																																																val:        "[\\t ]",
+																																																chars:      []rune{'\t', ' '},
+																																																ignoreCase: false,
+																																																inverted:   false,
+																																															},
+																																														},
+																																													},
+																																													&choiceExpr{
+																																														pos: position{line: 2897, col: 8, offset: 91376},
+																																														alternatives: []interface{}{
+																																															&actionExpr{
+																																																pos: position{line: 2884, col: 12, offset: 91149},
+																																																run: (*parser).callonListContinuationElement1560,
+																																																expr: &choiceExpr{
+																																																	pos: position{line: 2884, col: 13, offset: 91150},
+																																																	alternatives: []interface{}{
+																																																		&litMatcher{
+																																																			pos:        position{line: 2884, col: 13, offset: 91150},
+																																																			val:        "\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2884, col: 20, offset: 91157},
+																																																			val:        "\r\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2884, col: 29, offset: 91166},
+																																																			val:        "\r",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\"",
+																																																		},
+																																																	},
+																																																},
+																																															},
+																																															&notExpr{
+																																																pos: position{line: 2894, col: 8, offset: 91326},
+																																																expr: &anyMatcher{
+																																																	line: 2894, col: 9, offset: 91327,
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																											&notExpr{
+																																												pos: position{line: 2894, col: 8, offset: 91326},
+																																												expr: &anyMatcher{
+																																													line: 2894, col: 9, offset: 91327,
+																																												},
+																																											},
+																																											&seqExpr{
+																																												pos: position{line: 2676, col: 19, offset: 85286},
+																																												exprs: []interface{}{
+																																													&zeroOrOneExpr{
+																																														pos: position{line: 2676, col: 19, offset: 85286},
+																																														expr: &seqExpr{
+																																															pos: position{line: 2676, col: 20, offset: 85287},
+																																															exprs: []interface{}{
+																																																&oneOrMoreExpr{
+																																																	pos: position{line: 2676, col: 20, offset: 85287},
+																																																	expr: &charClassMatcher{
+																																																		pos:        position{line: 2676, col: 20, offset: 85287},
+																																																		val:        "[.0-9]",
+																																																		chars:      []rune{'.'},
+																																																		ranges:     []rune{'0', '9'},
+																																																		ignoreCase: false,
+																																																		inverted:   false,
+																																																	},
+																																																},
+																																																&charClassMatcher{
+																																																	pos:        position{line: 2676, col: 28, offset: 85295},
+																																																	val:        "[*+]",
+																																																	chars:      []rune{'*', '+'},
+																																																	ignoreCase: false,
+																																																	inverted:   false,
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&zeroOrOneExpr{
+																																														pos: position{line: 2676, col: 35, offset: 85302},
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2676, col: 35, offset: 85302},
+																																															val:        "[<^>]",
+																																															chars:      []rune{'<', '^', '>'},
+																																															ignoreCase: false,
+																																															inverted:   false,
+																																														},
+																																													},
+																																													&zeroOrOneExpr{
+																																														pos: position{line: 2676, col: 42, offset: 85309},
+																																														expr: &seqExpr{
+																																															pos: position{line: 2676, col: 43, offset: 85310},
+																																															exprs: []interface{}{
+																																																&litMatcher{
+																																																	pos:        position{line: 2676, col: 43, offset: 85310},
+																																																	val:        ".",
+																																																	ignoreCase: false,
+																																																	want:       "\".\"",
+																																																},
+																																																&charClassMatcher{
+																																																	pos:        position{line: 2676, col: 47, offset: 85314},
+																																																	val:        "[<^>]",
+																																																	chars:      []rune{'<', '^', '>'},
+																																																	ignoreCase: false,
+																																																	inverted:   false,
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&zeroOrOneExpr{
+																																														pos: position{line: 2676, col: 55, offset: 85322},
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2676, col: 55, offset: 85322},
+																																															val:        "[a-z]",
+																																															ranges:     []rune{'a', 'z'},
+																																															ignoreCase: false,
+																																															inverted:   false,
+																																														},
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2676, col: 62, offset: 85329},
+																																														val:        "|",
+																																														ignoreCase: false,
+																																														want:       "\"|\"",
+																																													},
+																																												},
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																						&labeledExpr{
+																																							pos:   position{line: 2671, col: 9, offset: 85178},
+																																							label: "content",
+																																							expr: &actionExpr{
+																																								pos: position{line: 2645, col: 5, offset: 84339},
+																																								run: (*parser).callonListContinuationElement1585,
+																																								expr: &labeledExpr{
+																																									pos:   position{line: 2645, col: 5, offset: 84339},
+																																									label: "content",
+																																									expr: &actionExpr{
+																																										pos: position{line: 2645, col: 14, offset: 84348},
+																																										run: (*parser).callonListContinuationElement1587,
+																																										expr: &zeroOrMoreExpr{
+																																											pos: position{line: 2645, col: 14, offset: 84348},
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2645, col: 14, offset: 84348},
+																																												val:        "[^|\\r\\n]",
+																																												chars:      []rune{'|', '\r', '\n'},
+																																												ignoreCase: false,
+																																												inverted:   true,
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																						&zeroOrOneExpr{
+																																							pos: position{line: 2671, col: 42, offset: 85211},
+																																							expr: &choiceExpr{
+																																								pos: position{line: 2897, col: 8, offset: 91376},
+																																								alternatives: []interface{}{
+																																									&actionExpr{
+																																										pos: position{line: 2884, col: 12, offset: 91149},
+																																										run: (*parser).callonListContinuationElement1592,
+																																										expr: &choiceExpr{
+																																											pos: position{line: 2884, col: 13, offset: 91150},
+																																											alternatives: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2884, col: 13, offset: 91150},
+																																													val:        "\n",
+																																													ignoreCase: false,
+																																													want:       "\"\\n\"",
+																																												},
+																																												&litMatcher{
+																																													pos:        position{line: 2884, col: 20, offset: 91157},
+																																													val:        "\r\n",
+																																													ignoreCase: false,
+																																													want:       "\"\\r\\n\"",
+																																												},
+																																												&litMatcher{
+																																													pos:        position{line: 2884, col: 29, offset: 91166},
+																																													val:        "\r",
+																																													ignoreCase: false,
+																																													want:       "\"\\r\"",
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&notExpr{
+																																										pos: position{line: 2894, col: 8, offset: 91326},
+																																										expr: &anyMatcher{
+																																											line: 2894, col: 9, offset: 91327,
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
+																																				},
 																																			},
 																																		},
 																																	},
@@ -35990,7 +36764,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21533},
-																							run: (*parser).callonListContinuationElement1518,
+																							run: (*parser).callonListContinuationElement1599,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21533},
 																								exprs: []interface{}{
@@ -36004,7 +36778,7 @@ var g = &grammar{
 																										pos: position{line: 677, col: 21, offset: 21540},
 																										expr: &actionExpr{
 																											pos: position{line: 2875, col: 10, offset: 90978},
-																											run: (*parser).callonListContinuationElement1523,
+																											run: (*parser).callonListContinuationElement1604,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
@@ -36019,7 +36793,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2884, col: 12, offset: 91149},
-																												run: (*parser).callonListContinuationElement1526,
+																												run: (*parser).callonListContinuationElement1607,
 																												expr: &choiceExpr{
 																													pos: position{line: 2884, col: 13, offset: 91150},
 																													alternatives: []interface{}{
@@ -36081,7 +36855,7 @@ var g = &grammar{
 																	pos: position{line: 2617, col: 26, offset: 83668},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement1537,
+																		run: (*parser).callonListContinuationElement1618,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -36096,7 +36870,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement1540,
+																			run: (*parser).callonListContinuationElement1621,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -36144,7 +36918,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2482, col: 22, offset: 79892},
-										run: (*parser).callonListContinuationElement1549,
+										run: (*parser).callonListContinuationElement1630,
 										expr: &seqExpr{
 											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
@@ -36168,7 +36942,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2821, col: 13, offset: 89504},
-														run: (*parser).callonListContinuationElement1555,
+														run: (*parser).callonListContinuationElement1636,
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
@@ -36186,7 +36960,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonListContinuationElement1559,
+															run: (*parser).callonListContinuationElement1640,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -36224,7 +36998,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1561, col: 5, offset: 50460},
-										run: (*parser).callonListContinuationElement1566,
+										run: (*parser).callonListContinuationElement1647,
 										expr: &seqExpr{
 											pos: position{line: 1561, col: 5, offset: 50460},
 											exprs: []interface{}{
@@ -36235,13 +37009,13 @@ var g = &grammar{
 														pos: position{line: 1561, col: 11, offset: 50466},
 														expr: &actionExpr{
 															pos: position{line: 1726, col: 5, offset: 55815},
-															run: (*parser).callonListContinuationElement1570,
+															run: (*parser).callonListContinuationElement1651,
 															expr: &seqExpr{
 																pos: position{line: 1726, col: 5, offset: 55815},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1726, col: 5, offset: 55815},
-																		run: (*parser).callonListContinuationElement1572,
+																		run: (*parser).callonListContinuationElement1653,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1729, col: 5, offset: 55878},
@@ -36251,7 +37025,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1729, col: 12, offset: 55885},
-																					run: (*parser).callonListContinuationElement1575,
+																					run: (*parser).callonListContinuationElement1656,
 																					expr: &litMatcher{
 																						pos:        position{line: 1729, col: 12, offset: 55885},
 																						val:        "TIP: ",
@@ -36261,7 +37035,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1731, col: 13, offset: 55941},
-																					run: (*parser).callonListContinuationElement1577,
+																					run: (*parser).callonListContinuationElement1658,
 																					expr: &litMatcher{
 																						pos:        position{line: 1731, col: 13, offset: 55941},
 																						val:        "NOTE: ",
@@ -36271,7 +37045,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1733, col: 13, offset: 55999},
-																					run: (*parser).callonListContinuationElement1579,
+																					run: (*parser).callonListContinuationElement1660,
 																					expr: &litMatcher{
 																						pos:        position{line: 1733, col: 13, offset: 55999},
 																						val:        "IMPORTANT: ",
@@ -36281,7 +37055,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1735, col: 13, offset: 56067},
-																					run: (*parser).callonListContinuationElement1581,
+																					run: (*parser).callonListContinuationElement1662,
 																					expr: &litMatcher{
 																						pos:        position{line: 1735, col: 13, offset: 56067},
 																						val:        "WARNING: ",
@@ -36291,7 +37065,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1737, col: 13, offset: 56131},
-																					run: (*parser).callonListContinuationElement1583,
+																					run: (*parser).callonListContinuationElement1664,
 																					expr: &litMatcher{
 																						pos:        position{line: 1737, col: 13, offset: 56131},
 																						val:        "CAUTION: ",
@@ -36301,12 +37075,12 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1739, col: 13, offset: 56195},
-																					run: (*parser).callonListContinuationElement1585,
+																					run: (*parser).callonListContinuationElement1666,
 																					expr: &andExpr{
 																						pos: position{line: 1739, col: 13, offset: 56195},
 																						expr: &actionExpr{
 																							pos: position{line: 2879, col: 11, offset: 91039},
-																							run: (*parser).callonListContinuationElement1587,
+																							run: (*parser).callonListContinuationElement1668,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
@@ -36332,7 +37106,7 @@ var g = &grammar{
 																					pos: position{line: 1742, col: 7, offset: 56282},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1593,
+																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -36347,7 +37121,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonListContinuationElement1596,
+																							run: (*parser).callonListContinuationElement1677,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -36393,7 +37167,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48839},
-														run: (*parser).callonListContinuationElement1604,
+														run: (*parser).callonListContinuationElement1685,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48839},
 															exprs: []interface{}{
@@ -36401,7 +37175,7 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48839},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21533},
-																		run: (*parser).callonListContinuationElement1607,
+																		run: (*parser).callonListContinuationElement1688,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
@@ -36415,7 +37189,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1612,
+																						run: (*parser).callonListContinuationElement1693,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -36430,7 +37204,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonListContinuationElement1615,
+																							run: (*parser).callonListContinuationElement1696,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -36482,7 +37256,7 @@ var g = &grammar{
 																				pos: position{line: 1536, col: 31, offset: 49684},
 																				expr: &actionExpr{
 																					pos: position{line: 2875, col: 10, offset: 90978},
-																					run: (*parser).callonListContinuationElement1626,
+																					run: (*parser).callonListContinuationElement1707,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
@@ -36494,7 +37268,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonListContinuationElement1628,
+																				run: (*parser).callonListContinuationElement1709,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -36526,7 +37300,7 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48882},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50899},
-																		run: (*parser).callonListContinuationElement1634,
+																		run: (*parser).callonListContinuationElement1715,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50899},
 																			exprs: []interface{}{
@@ -36534,7 +37308,7 @@ var g = &grammar{
 																					pos: position{line: 1577, col: 5, offset: 50899},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1637,
+																						run: (*parser).callonListContinuationElement1718,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -36552,7 +37326,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50969},
-																								run: (*parser).callonListContinuationElement1641,
+																								run: (*parser).callonListContinuationElement1722,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50969},
 																									exprs: []interface{}{
@@ -36561,7 +37335,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50976},
-																												run: (*parser).callonListContinuationElement1644,
+																												run: (*parser).callonListContinuationElement1725,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50976},
 																													expr: &litMatcher{
@@ -36575,14 +37349,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51077},
-																											run: (*parser).callonListContinuationElement1647,
+																											run: (*parser).callonListContinuationElement1728,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51794},
-																								run: (*parser).callonListContinuationElement1648,
+																								run: (*parser).callonListContinuationElement1729,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51794},
 																									exprs: []interface{}{
@@ -36607,7 +37381,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51920},
-																								run: (*parser).callonListContinuationElement1653,
+																								run: (*parser).callonListContinuationElement1734,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51920},
 																									exprs: []interface{}{
@@ -36629,7 +37403,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52048},
-																								run: (*parser).callonListContinuationElement1657,
+																								run: (*parser).callonListContinuationElement1738,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52048},
 																									exprs: []interface{}{
@@ -36651,7 +37425,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52176},
-																								run: (*parser).callonListContinuationElement1661,
+																								run: (*parser).callonListContinuationElement1742,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52176},
 																									exprs: []interface{}{
@@ -36676,7 +37450,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52309},
-																								run: (*parser).callonListContinuationElement1666,
+																								run: (*parser).callonListContinuationElement1747,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52309},
 																									exprs: []interface{}{
@@ -36704,7 +37478,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1671,
+																					run: (*parser).callonListContinuationElement1752,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -36724,7 +37498,7 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48912},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52861},
-																		run: (*parser).callonListContinuationElement1675,
+																		run: (*parser).callonListContinuationElement1756,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52861},
 																			exprs: []interface{}{
@@ -36732,7 +37506,7 @@ var g = &grammar{
 																					pos: position{line: 1627, col: 5, offset: 52861},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1678,
+																						run: (*parser).callonListContinuationElement1759,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -36747,7 +37521,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52889},
-																						run: (*parser).callonListContinuationElement1681,
+																						run: (*parser).callonListContinuationElement1762,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52890},
 																							alternatives: []interface{}{
@@ -36772,11 +37546,11 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52989},
-																					run: (*parser).callonListContinuationElement1686,
+																					run: (*parser).callonListContinuationElement1767,
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1687,
+																					run: (*parser).callonListContinuationElement1768,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -36796,7 +37570,7 @@ var g = &grammar{
 																	pos: position{line: 1509, col: 5, offset: 48944},
 																	expr: &actionExpr{
 																		pos: position{line: 1717, col: 5, offset: 55430},
-																		run: (*parser).callonListContinuationElement1691,
+																		run: (*parser).callonListContinuationElement1772,
 																		expr: &seqExpr{
 																			pos: position{line: 1717, col: 5, offset: 55430},
 																			exprs: []interface{}{
@@ -36811,7 +37585,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1717, col: 14, offset: 55439},
-																						run: (*parser).callonListContinuationElement1695,
+																						run: (*parser).callonListContinuationElement1776,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1717, col: 14, offset: 55439},
 																							expr: &charClassMatcher{
@@ -36832,7 +37606,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1699,
+																					run: (*parser).callonListContinuationElement1780,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -36855,7 +37629,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53880},
-																				run: (*parser).callonListContinuationElement1704,
+																				run: (*parser).callonListContinuationElement1785,
 																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53880},
 																					exprs: []interface{}{
@@ -36891,7 +37665,7 @@ var g = &grammar{
 																										pos: position{line: 1663, col: 6, offset: 53913},
 																										expr: &actionExpr{
 																											pos: position{line: 1668, col: 5, offset: 54063},
-																											run: (*parser).callonListContinuationElement1714,
+																											run: (*parser).callonListContinuationElement1795,
 																											expr: &seqExpr{
 																												pos: position{line: 1668, col: 5, offset: 54063},
 																												exprs: []interface{}{
@@ -36900,7 +37674,7 @@ var g = &grammar{
 																														label: "separator",
 																														expr: &actionExpr{
 																															pos: position{line: 1668, col: 16, offset: 54074},
-																															run: (*parser).callonListContinuationElement1717,
+																															run: (*parser).callonListContinuationElement1798,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 1668, col: 16, offset: 54074},
 																																expr: &litMatcher{
@@ -36914,7 +37688,7 @@ var g = &grammar{
 																													},
 																													&andCodeExpr{
 																														pos: position{line: 1671, col: 5, offset: 54132},
-																														run: (*parser).callonListContinuationElement1720,
+																														run: (*parser).callonListContinuationElement1801,
 																													},
 																												},
 																											},
@@ -36927,7 +37701,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1723,
+																													run: (*parser).callonListContinuationElement1804,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -36972,7 +37746,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1668, col: 5, offset: 54063},
-																				run: (*parser).callonListContinuationElement1731,
+																				run: (*parser).callonListContinuationElement1812,
 																				expr: &seqExpr{
 																					pos: position{line: 1668, col: 5, offset: 54063},
 																					exprs: []interface{}{
@@ -36981,7 +37755,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1668, col: 16, offset: 54074},
-																								run: (*parser).callonListContinuationElement1734,
+																								run: (*parser).callonListContinuationElement1815,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1668, col: 16, offset: 54074},
 																									expr: &litMatcher{
@@ -36995,7 +37769,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1671, col: 5, offset: 54132},
-																							run: (*parser).callonListContinuationElement1737,
+																							run: (*parser).callonListContinuationElement1818,
 																						},
 																					},
 																				},
@@ -37007,7 +37781,7 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 49032},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23086},
-																		run: (*parser).callonListContinuationElement1739,
+																		run: (*parser).callonListContinuationElement1820,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23086},
 																			exprs: []interface{}{
@@ -37029,7 +37803,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23628},
-																								run: (*parser).callonListContinuationElement1745,
+																								run: (*parser).callonListContinuationElement1826,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23628},
 																									exprs: []interface{}{
@@ -37038,7 +37812,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23639},
-																												run: (*parser).callonListContinuationElement1748,
+																												run: (*parser).callonListContinuationElement1829,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23639},
 																													exprs: []interface{}{
@@ -37065,7 +37839,7 @@ var g = &grammar{
 																											pos: position{line: 742, col: 8, offset: 23730},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1754,
+																												run: (*parser).callonListContinuationElement1835,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37080,7 +37854,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1757,
+																													run: (*parser).callonListContinuationElement1838,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37118,7 +37892,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23876},
-																								run: (*parser).callonListContinuationElement1764,
+																								run: (*parser).callonListContinuationElement1845,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23876},
 																									exprs: []interface{}{
@@ -37127,7 +37901,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23887},
-																												run: (*parser).callonListContinuationElement1767,
+																												run: (*parser).callonListContinuationElement1848,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23887},
 																													exprs: []interface{}{
@@ -37154,7 +37928,7 @@ var g = &grammar{
 																											pos: position{line: 749, col: 8, offset: 23978},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1773,
+																												run: (*parser).callonListContinuationElement1854,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37169,7 +37943,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1776,
+																													run: (*parser).callonListContinuationElement1857,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37207,7 +37981,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24364},
-																								run: (*parser).callonListContinuationElement1783,
+																								run: (*parser).callonListContinuationElement1864,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24364},
 																									exprs: []interface{}{
@@ -37222,7 +37996,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24500},
-																												run: (*parser).callonListContinuationElement1787,
+																												run: (*parser).callonListContinuationElement1868,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24501},
 																													expr: &charClassMatcher{
@@ -37239,7 +38013,7 @@ var g = &grammar{
 																											pos: position{line: 760, col: 52, offset: 24390},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1791,
+																												run: (*parser).callonListContinuationElement1872,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37254,7 +38028,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1794,
+																													run: (*parser).callonListContinuationElement1875,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37292,7 +38066,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24123},
-																								run: (*parser).callonListContinuationElement1801,
+																								run: (*parser).callonListContinuationElement1882,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24123},
 																									exprs: []interface{}{
@@ -37301,7 +38075,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24134},
-																												run: (*parser).callonListContinuationElement1804,
+																												run: (*parser).callonListContinuationElement1885,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24134},
 																													exprs: []interface{}{
@@ -37328,7 +38102,7 @@ var g = &grammar{
 																											pos: position{line: 756, col: 8, offset: 24224},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1810,
+																												run: (*parser).callonListContinuationElement1891,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37343,7 +38117,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1813,
+																													run: (*parser).callonListContinuationElement1894,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37381,7 +38155,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24660},
-																								run: (*parser).callonListContinuationElement1820,
+																								run: (*parser).callonListContinuationElement1901,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24660},
 																									exprs: []interface{}{
@@ -37390,7 +38164,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24671},
-																												run: (*parser).callonListContinuationElement1823,
+																												run: (*parser).callonListContinuationElement1904,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24671},
 																													exprs: []interface{}{
@@ -37417,7 +38191,7 @@ var g = &grammar{
 																											pos: position{line: 771, col: 8, offset: 24762},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1829,
+																												run: (*parser).callonListContinuationElement1910,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37432,7 +38206,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1832,
+																													run: (*parser).callonListContinuationElement1913,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37470,7 +38244,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25136},
-																								run: (*parser).callonListContinuationElement1839,
+																								run: (*parser).callonListContinuationElement1920,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25136},
 																									exprs: []interface{}{
@@ -37479,7 +38253,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25147},
-																												run: (*parser).callonListContinuationElement1842,
+																												run: (*parser).callonListContinuationElement1923,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25147},
 																													exprs: []interface{}{
@@ -37506,7 +38280,7 @@ var g = &grammar{
 																											pos: position{line: 785, col: 8, offset: 25238},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1848,
+																												run: (*parser).callonListContinuationElement1929,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37521,7 +38295,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1851,
+																													run: (*parser).callonListContinuationElement1932,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37559,7 +38333,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25388},
-																								run: (*parser).callonListContinuationElement1858,
+																								run: (*parser).callonListContinuationElement1939,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25388},
 																									exprs: []interface{}{
@@ -37568,7 +38342,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25399},
-																												run: (*parser).callonListContinuationElement1861,
+																												run: (*parser).callonListContinuationElement1942,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25399},
 																													exprs: []interface{}{
@@ -37595,7 +38369,7 @@ var g = &grammar{
 																											pos: position{line: 792, col: 8, offset: 25490},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1867,
+																												run: (*parser).callonListContinuationElement1948,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37610,7 +38384,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1870,
+																													run: (*parser).callonListContinuationElement1951,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37648,7 +38422,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25638},
-																								run: (*parser).callonListContinuationElement1877,
+																								run: (*parser).callonListContinuationElement1958,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25638},
 																									exprs: []interface{}{
@@ -37657,7 +38431,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25649},
-																												run: (*parser).callonListContinuationElement1880,
+																												run: (*parser).callonListContinuationElement1961,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25649},
 																													exprs: []interface{}{
@@ -37684,7 +38458,7 @@ var g = &grammar{
 																											pos: position{line: 799, col: 8, offset: 25740},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1886,
+																												run: (*parser).callonListContinuationElement1967,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37699,7 +38473,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1889,
+																													run: (*parser).callonListContinuationElement1970,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37737,7 +38511,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25884},
-																								run: (*parser).callonListContinuationElement1896,
+																								run: (*parser).callonListContinuationElement1977,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25884},
 																									exprs: []interface{}{
@@ -37746,7 +38520,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25895},
-																												run: (*parser).callonListContinuationElement1899,
+																												run: (*parser).callonListContinuationElement1980,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25895},
 																													exprs: []interface{}{
@@ -37773,7 +38547,7 @@ var g = &grammar{
 																											pos: position{line: 806, col: 8, offset: 25986},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1905,
+																												run: (*parser).callonListContinuationElement1986,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37788,7 +38562,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1908,
+																													run: (*parser).callonListContinuationElement1989,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37836,7 +38610,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2825, col: 14, offset: 89571},
-																		run: (*parser).callonListContinuationElement1916,
+																		run: (*parser).callonListContinuationElement1997,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
 																			expr: &charClassMatcher{
@@ -37854,7 +38628,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement1920,
+																			run: (*parser).callonListContinuationElement2001,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -47582,23 +48356,23 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2680, col: 1, offset: 85153},
+			pos:  position{line: 2683, col: 1, offset: 85420},
 			expr: &actionExpr{
-				pos: position{line: 2680, col: 26, offset: 85178},
+				pos: position{line: 2683, col: 26, offset: 85445},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2680, col: 26, offset: 85178},
+					pos: position{line: 2683, col: 26, offset: 85445},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2680, col: 26, offset: 85178},
+							pos:   position{line: 2683, col: 26, offset: 85445},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2680, col: 31, offset: 85183},
+								pos: position{line: 2683, col: 31, offset: 85450},
 								expr: &actionExpr{
-									pos: position{line: 2685, col: 5, offset: 85246},
+									pos: position{line: 2688, col: 5, offset: 85513},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2685, col: 5, offset: 85246},
+										pos: position{line: 2688, col: 5, offset: 85513},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2892, col: 11, offset: 91312},
@@ -47607,18 +48381,18 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85372},
+												pos:   position{line: 2689, col: 5, offset: 85524},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 16, offset: 85383},
+													pos: position{line: 2689, col: 16, offset: 85535},
 													expr: &actionExpr{
-														pos: position{line: 2688, col: 17, offset: 85384},
+														pos: position{line: 2689, col: 17, offset: 85536},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2688, col: 17, offset: 85384},
+															pos: position{line: 2689, col: 17, offset: 85536},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2688, col: 17, offset: 85384},
+																	pos:   position{line: 2689, col: 17, offset: 85536},
 																	label: "n",
 																	expr: &actionExpr{
 																		pos: position{line: 2867, col: 12, offset: 90805},
@@ -47650,7 +48424,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2688, col: 27, offset: 85394},
+																	pos:        position{line: 2689, col: 27, offset: 85546},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47661,38 +48435,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85422},
+												pos:   position{line: 2690, col: 5, offset: 85574},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 12, offset: 85429},
+													pos: position{line: 2690, col: 12, offset: 85581},
 													expr: &choiceExpr{
-														pos: position{line: 2690, col: 9, offset: 85439},
+														pos: position{line: 2691, col: 9, offset: 85591},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2690, col: 9, offset: 85439},
+																pos: position{line: 2691, col: 9, offset: 85591},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 9, offset: 85439},
+																	pos:        position{line: 2691, col: 9, offset: 85591},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2691, col: 11, offset: 85486},
+																pos: position{line: 2692, col: 11, offset: 85638},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 11, offset: 85486},
+																	pos:        position{line: 2692, col: 11, offset: 85638},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85534},
+																pos: position{line: 2693, col: 11, offset: 85686},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85534},
+																	pos:        position{line: 2693, col: 11, offset: 85686},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47703,38 +48477,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2694, col: 5, offset: 85584},
+												pos:   position{line: 2695, col: 5, offset: 85736},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2694, col: 12, offset: 85591},
+													pos: position{line: 2695, col: 12, offset: 85743},
 													expr: &choiceExpr{
-														pos: position{line: 2695, col: 9, offset: 85601},
+														pos: position{line: 2696, col: 9, offset: 85753},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2695, col: 9, offset: 85601},
+																pos: position{line: 2696, col: 9, offset: 85753},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 9, offset: 85601},
+																	pos:        position{line: 2696, col: 9, offset: 85753},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2696, col: 11, offset: 85648},
+																pos: position{line: 2697, col: 11, offset: 85800},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 11, offset: 85648},
+																	pos:        position{line: 2697, col: 11, offset: 85800},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85698},
+																pos: position{line: 2698, col: 11, offset: 85850},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85698},
+																	pos:        position{line: 2698, col: 11, offset: 85850},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47745,12 +48519,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85749},
+												pos:   position{line: 2700, col: 5, offset: 85901},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 12, offset: 85756},
+													pos: position{line: 2700, col: 12, offset: 85908},
 													expr: &choiceExpr{
-														pos: position{line: 2699, col: 13, offset: 85757},
+														pos: position{line: 2700, col: 13, offset: 85909},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2867, col: 12, offset: 90805},
@@ -47781,10 +48555,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 24, offset: 85768},
+																pos: position{line: 2700, col: 24, offset: 85920},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 24, offset: 85768},
+																	pos:        position{line: 2700, col: 24, offset: 85920},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47795,15 +48569,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85810},
+												pos:   position{line: 2701, col: 5, offset: 85962},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 11, offset: 85816},
+													pos: position{line: 2701, col: 11, offset: 85968},
 													expr: &actionExpr{
-														pos: position{line: 2700, col: 12, offset: 85817},
+														pos: position{line: 2701, col: 12, offset: 85969},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2700, col: 12, offset: 85817},
+															pos:        position{line: 2701, col: 12, offset: 85969},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47813,12 +48587,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 85947},
+												pos:   position{line: 2702, col: 5, offset: 86016},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 11, offset: 85953},
+													pos: position{line: 2702, col: 11, offset: 86022},
 													expr: &litMatcher{
-														pos:        position{line: 2702, col: 12, offset: 85954},
+														pos:        position{line: 2702, col: 12, offset: 86023},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47826,7 +48600,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2703, col: 5, offset: 85964},
+												pos: position{line: 2703, col: 5, offset: 86033},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -53377,6 +54151,63 @@ func (p *parser) callonDocumentFragment1179() (interface{}, error) {
 	return p.cur.onDocumentFragment1179()
 }
 
+func (c *current) onDocumentFragment1194() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1194() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1194()
+}
+
+func (c *current) onDocumentFragment1197() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1197() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1197()
+}
+
+func (c *current) onDocumentFragment1189() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1189()
+}
+
+func (c *current) onDocumentFragment1208() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1208() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1208()
+}
+
+func (c *current) onDocumentFragment1211() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1211() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1211()
+}
+
 func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
 
 	return cells, nil
@@ -53388,215 +54219,260 @@ func (p *parser) callonDocumentFragment1162() (interface{}, error) {
 	return p.cur.onDocumentFragment1162(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1196() (interface{}, error) {
+func (c *current) onDocumentFragment1246() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1196() (interface{}, error) {
+func (p *parser) callonDocumentFragment1246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1196()
+	return p.cur.onDocumentFragment1246()
 }
 
-func (c *current) onDocumentFragment1199() (interface{}, error) {
+func (c *current) onDocumentFragment1249() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1199() (interface{}, error) {
+func (p *parser) callonDocumentFragment1249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1199()
+	return p.cur.onDocumentFragment1249()
 }
 
-func (c *current) onDocumentFragment1214() (interface{}, error) {
+func (c *current) onDocumentFragment1260() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1260() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1260()
+}
+
+func (c *current) onDocumentFragment1265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+func (p *parser) callonDocumentFragment1265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1214()
+	return p.cur.onDocumentFragment1265()
 }
 
-func (c *current) onDocumentFragment1217() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onDocumentFragment1270() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+func (p *parser) callonDocumentFragment1270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1217()
+	return p.cur.onDocumentFragment1270()
 }
 
-func (c *current) onDocumentFragment1209() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onDocumentFragment1268(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1209() (interface{}, error) {
+func (p *parser) callonDocumentFragment1268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1209()
+	return p.cur.onDocumentFragment1268(stack["content"])
 }
 
-func (c *current) onDocumentFragment1226() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onDocumentFragment1239(format, content interface{}) (interface{}, error) {
+	return types.NewMultilineTableCell([]interface{}{content}, format)
+
 }
 
-func (p *parser) callonDocumentFragment1226() (interface{}, error) {
+func (p *parser) callonDocumentFragment1239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1226()
+	return p.cur.onDocumentFragment1239(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1231() (interface{}, error) {
+func (c *current) onDocumentFragment1283() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231()
+	return p.cur.onDocumentFragment1283()
 }
 
-func (c *current) onDocumentFragment1234() (interface{}, error) {
+func (c *current) onDocumentFragment1286() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1234() (interface{}, error) {
+func (p *parser) callonDocumentFragment1286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1234()
+	return p.cur.onDocumentFragment1286()
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1297() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1297()
+}
+
+func (c *current) onDocumentFragment1302() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1302()
 }
 
-func (c *current) onDocumentFragment1251() (interface{}, error) {
+func (c *current) onDocumentFragment1305() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1251() (interface{}, error) {
+func (p *parser) callonDocumentFragment1305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1251()
+	return p.cur.onDocumentFragment1305()
 }
 
-func (c *current) onDocumentFragment1266() (interface{}, error) {
+func (c *current) onDocumentFragment1322() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1266() (interface{}, error) {
+func (p *parser) callonDocumentFragment1322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1266()
+	return p.cur.onDocumentFragment1322()
 }
 
-func (c *current) onDocumentFragment1269() (interface{}, error) {
+func (c *current) onDocumentFragment1325() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1269() (interface{}, error) {
+func (p *parser) callonDocumentFragment1325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1269()
+	return p.cur.onDocumentFragment1325()
 }
 
-func (c *current) onDocumentFragment1261() (interface{}, error) {
+func (c *current) onDocumentFragment1317() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1261() (interface{}, error) {
+func (p *parser) callonDocumentFragment1317() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1261()
+	return p.cur.onDocumentFragment1317()
 }
 
-func (c *current) onDocumentFragment1280() (interface{}, error) {
+func (c *current) onDocumentFragment1336() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1336() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280()
+	return p.cur.onDocumentFragment1336()
 }
 
-func (c *current) onDocumentFragment1285() (interface{}, error) {
+func (c *current) onDocumentFragment1339() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1339() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1339()
+}
+
+func (c *current) onDocumentFragment1366() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1366() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1366()
+}
+
+func (c *current) onDocumentFragment1364(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1285() (interface{}, error) {
+func (p *parser) callonDocumentFragment1364() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1285()
+	return p.cur.onDocumentFragment1364(stack["content"])
 }
 
-func (c *current) onDocumentFragment1290() (interface{}, error) {
+func (c *current) onDocumentFragment1371() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1290() (interface{}, error) {
+func (p *parser) callonDocumentFragment1371() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1290()
+	return p.cur.onDocumentFragment1371()
 }
 
-func (c *current) onDocumentFragment1241(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onDocumentFragment1312(content interface{}) (interface{}, error) {
+	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1241() (interface{}, error) {
+func (p *parser) callonDocumentFragment1312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1241(stack["content"])
+	return p.cur.onDocumentFragment1312(stack["content"])
 }
 
-func (c *current) onDocumentFragment1189(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1276(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1276(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1186(cells interface{}) (interface{}, error) {
-	return cells, nil
+func (c *current) onDocumentFragment1235(cells, last interface{}) (interface{}, error) {
+	return append(cells.([]interface{}), last), nil
 }
 
-func (p *parser) callonDocumentFragment1186() (interface{}, error) {
+func (p *parser) callonDocumentFragment1235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1186(stack["cells"])
+	return p.cur.onDocumentFragment1235(stack["cells"], stack["last"])
 }
 
 func (c *current) onDocumentFragment1159(cells interface{}) (interface{}, error) {
@@ -53610,38 +54486,38 @@ func (p *parser) callonDocumentFragment1159() (interface{}, error) {
 	return p.cur.onDocumentFragment1159(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1383() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1383()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1386() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1386()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1378() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1378() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1378()
 }
 
 func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
@@ -53655,27 +54531,27 @@ func (p *parser) callonDocumentFragment1138() (interface{}, error) {
 	return p.cur.onDocumentFragment1138(stack["content"])
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1397() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1397()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1400() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1400()
 }
 
 func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
@@ -53689,161 +54565,161 @@ func (p *parser) callonDocumentFragment1106() (interface{}, error) {
 	return p.cur.onDocumentFragment1106(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1334() (interface{}, error) {
+func (c *current) onDocumentFragment1415() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1334() (interface{}, error) {
+func (p *parser) callonDocumentFragment1415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1334()
+	return p.cur.onDocumentFragment1415()
 }
 
-func (c *current) onDocumentFragment1338() (interface{}, error) {
+func (c *current) onDocumentFragment1419() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1338() (interface{}, error) {
+func (p *parser) callonDocumentFragment1419() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1338()
+	return p.cur.onDocumentFragment1419()
 }
 
-func (c *current) onDocumentFragment1328(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1409(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1328() (interface{}, error) {
+func (p *parser) callonDocumentFragment1409() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1328(stack["content"])
+	return p.cur.onDocumentFragment1409(stack["content"])
 }
 
-func (c *current) onDocumentFragment1347() (bool, error) {
+func (c *current) onDocumentFragment1428() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1347() (bool, error) {
+func (p *parser) callonDocumentFragment1428() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1347()
+	return p.cur.onDocumentFragment1428()
 }
 
-func (c *current) onDocumentFragment1353() (interface{}, error) {
+func (c *current) onDocumentFragment1434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1353() (interface{}, error) {
+func (p *parser) callonDocumentFragment1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1353()
+	return p.cur.onDocumentFragment1434()
 }
 
-func (c *current) onDocumentFragment1356() (interface{}, error) {
+func (c *current) onDocumentFragment1437() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1356() (interface{}, error) {
+func (p *parser) callonDocumentFragment1437() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1356()
+	return p.cur.onDocumentFragment1437()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1454() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1454()
 }
 
-func (c *current) onDocumentFragment1376() (interface{}, error) {
+func (c *current) onDocumentFragment1457() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1376() (interface{}, error) {
+func (p *parser) callonDocumentFragment1457() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1376()
+	return p.cur.onDocumentFragment1457()
 }
 
-func (c *current) onDocumentFragment1365() (interface{}, error) {
+func (c *current) onDocumentFragment1446() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1365() (interface{}, error) {
+func (p *parser) callonDocumentFragment1446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1365()
+	return p.cur.onDocumentFragment1446()
 }
 
-func (c *current) onDocumentFragment1386() (interface{}, error) {
+func (c *current) onDocumentFragment1467() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1386() (interface{}, error) {
+func (p *parser) callonDocumentFragment1467() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1467()
 }
 
-func (c *current) onDocumentFragment1389() (interface{}, error) {
+func (c *current) onDocumentFragment1470() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1389() (interface{}, error) {
+func (p *parser) callonDocumentFragment1470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1389()
+	return p.cur.onDocumentFragment1470()
 }
 
-func (c *current) onDocumentFragment1349(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1430(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1349() (interface{}, error) {
+func (p *parser) callonDocumentFragment1430() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1349(stack["content"])
+	return p.cur.onDocumentFragment1430(stack["content"])
 }
 
-func (c *current) onDocumentFragment1345(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1426(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1345() (interface{}, error) {
+func (p *parser) callonDocumentFragment1426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1345(stack["frontmatter"])
+	return p.cur.onDocumentFragment1426(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1397(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1478(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1397() (bool, error) {
+func (p *parser) callonDocumentFragment1478() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1478(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -67092,6 +67968,63 @@ func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	return p.cur.onListContinuationElement1400()
 }
 
+func (c *current) onListContinuationElement1415() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1415() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1415()
+}
+
+func (c *current) onListContinuationElement1418() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1418() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1418()
+}
+
+func (c *current) onListContinuationElement1410() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1410()
+}
+
+func (c *current) onListContinuationElement1429() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1429()
+}
+
+func (c *current) onListContinuationElement1432() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1432()
+}
+
 func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
 
 	return cells, nil
@@ -67103,215 +68036,260 @@ func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	return p.cur.onListContinuationElement1383(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1417() (interface{}, error) {
+func (c *current) onListContinuationElement1467() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1417() (interface{}, error) {
+func (p *parser) callonListContinuationElement1467() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1417()
+	return p.cur.onListContinuationElement1467()
 }
 
-func (c *current) onListContinuationElement1420() (interface{}, error) {
+func (c *current) onListContinuationElement1470() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1420() (interface{}, error) {
+func (p *parser) callonListContinuationElement1470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1420()
+	return p.cur.onListContinuationElement1470()
 }
 
-func (c *current) onListContinuationElement1435() (interface{}, error) {
+func (c *current) onListContinuationElement1481() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1481()
+}
+
+func (c *current) onListContinuationElement1486() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1435() (interface{}, error) {
+func (p *parser) callonListContinuationElement1486() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1435()
+	return p.cur.onListContinuationElement1486()
 }
 
-func (c *current) onListContinuationElement1438() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1491() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1438() (interface{}, error) {
+func (p *parser) callonListContinuationElement1491() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1438()
+	return p.cur.onListContinuationElement1491()
 }
 
-func (c *current) onListContinuationElement1430() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1489(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1430() (interface{}, error) {
+func (p *parser) callonListContinuationElement1489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1430()
+	return p.cur.onListContinuationElement1489(stack["content"])
 }
 
-func (c *current) onListContinuationElement1447() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1460(format, content interface{}) (interface{}, error) {
+	return types.NewMultilineTableCell([]interface{}{content}, format)
+
 }
 
-func (p *parser) callonListContinuationElement1447() (interface{}, error) {
+func (p *parser) callonListContinuationElement1460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1447()
+	return p.cur.onListContinuationElement1460(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1452() (interface{}, error) {
+func (c *current) onListContinuationElement1504() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1452() (interface{}, error) {
+func (p *parser) callonListContinuationElement1504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1452()
+	return p.cur.onListContinuationElement1504()
 }
 
-func (c *current) onListContinuationElement1455() (interface{}, error) {
+func (c *current) onListContinuationElement1507() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1455() (interface{}, error) {
+func (p *parser) callonListContinuationElement1507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1455()
+	return p.cur.onListContinuationElement1507()
 }
 
-func (c *current) onListContinuationElement1469() (interface{}, error) {
+func (c *current) onListContinuationElement1518() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1518() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1518()
+}
+
+func (c *current) onListContinuationElement1523() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1469() (interface{}, error) {
+func (p *parser) callonListContinuationElement1523() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1469()
+	return p.cur.onListContinuationElement1523()
 }
 
-func (c *current) onListContinuationElement1472() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1472() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1472()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1487() (interface{}, error) {
+func (c *current) onListContinuationElement1543() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1487() (interface{}, error) {
+func (p *parser) callonListContinuationElement1543() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1487()
+	return p.cur.onListContinuationElement1543()
 }
 
-func (c *current) onListContinuationElement1490() (interface{}, error) {
+func (c *current) onListContinuationElement1546() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1490() (interface{}, error) {
+func (p *parser) callonListContinuationElement1546() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1490()
+	return p.cur.onListContinuationElement1546()
 }
 
-func (c *current) onListContinuationElement1482() (interface{}, error) {
+func (c *current) onListContinuationElement1538() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1482() (interface{}, error) {
+func (p *parser) callonListContinuationElement1538() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1538()
+}
+
+func (c *current) onListContinuationElement1557() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1482()
+	return p.cur.onListContinuationElement1557()
 }
 
-func (c *current) onListContinuationElement1501() (interface{}, error) {
+func (c *current) onListContinuationElement1560() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1501() (interface{}, error) {
+func (p *parser) callonListContinuationElement1560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1501()
+	return p.cur.onListContinuationElement1560()
 }
 
-func (c *current) onListContinuationElement1506() (interface{}, error) {
+func (c *current) onListContinuationElement1587() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1506() (interface{}, error) {
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1506()
+	return p.cur.onListContinuationElement1587()
+}
+
+func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
 }
 
-func (c *current) onListContinuationElement1511() (interface{}, error) {
+func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1585(stack["content"])
+}
+
+func (c *current) onListContinuationElement1592() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1511() (interface{}, error) {
+func (p *parser) callonListContinuationElement1592() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1511()
+	return p.cur.onListContinuationElement1592()
 }
 
-func (c *current) onListContinuationElement1462(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1533(content interface{}) (interface{}, error) {
+	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1462() (interface{}, error) {
+func (p *parser) callonListContinuationElement1533() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1462(stack["content"])
+	return p.cur.onListContinuationElement1533(stack["content"])
 }
 
-func (c *current) onListContinuationElement1410(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1497(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+func (p *parser) callonListContinuationElement1497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1410(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1497(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1407(cells interface{}) (interface{}, error) {
-	return cells, nil
+func (c *current) onListContinuationElement1456(cells, last interface{}) (interface{}, error) {
+	return append(cells.([]interface{}), last), nil
 }
 
-func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+func (p *parser) callonListContinuationElement1456() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1407(stack["cells"])
+	return p.cur.onListContinuationElement1456(stack["cells"], stack["last"])
 }
 
 func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
@@ -67325,38 +68303,38 @@ func (p *parser) callonListContinuationElement1380() (interface{}, error) {
 	return p.cur.onListContinuationElement1380(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1523() (interface{}, error) {
+func (c *current) onListContinuationElement1604() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1523() (interface{}, error) {
+func (p *parser) callonListContinuationElement1604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1523()
+	return p.cur.onListContinuationElement1604()
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
+func (c *current) onListContinuationElement1607() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1607()
 }
 
-func (c *current) onListContinuationElement1518() (interface{}, error) {
+func (c *current) onListContinuationElement1599() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1518() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1518()
+	return p.cur.onListContinuationElement1599()
 }
 
 func (c *current) onListContinuationElement1359(content interface{}) (interface{}, error) {
@@ -67370,27 +68348,27 @@ func (p *parser) callonListContinuationElement1359() (interface{}, error) {
 	return p.cur.onListContinuationElement1359(stack["content"])
 }
 
-func (c *current) onListContinuationElement1537() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1537() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1537()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1540() (interface{}, error) {
+func (c *current) onListContinuationElement1621() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1540() (interface{}, error) {
+func (p *parser) callonListContinuationElement1621() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1540()
+	return p.cur.onListContinuationElement1621()
 }
 
 func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
@@ -67404,261 +68382,261 @@ func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	return p.cur.onListContinuationElement1327(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1555() (interface{}, error) {
+func (c *current) onListContinuationElement1636() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1555() (interface{}, error) {
+func (p *parser) callonListContinuationElement1636() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1555()
+	return p.cur.onListContinuationElement1636()
 }
 
-func (c *current) onListContinuationElement1559() (interface{}, error) {
+func (c *current) onListContinuationElement1640() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1559() (interface{}, error) {
+func (p *parser) callonListContinuationElement1640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1559()
+	return p.cur.onListContinuationElement1640()
 }
 
-func (c *current) onListContinuationElement1549(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1630(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549(stack["content"])
+	return p.cur.onListContinuationElement1630(stack["content"])
 }
 
-func (c *current) onListContinuationElement1572() (bool, error) {
+func (c *current) onListContinuationElement1653() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1572() (bool, error) {
+func (p *parser) callonListContinuationElement1653() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1572()
+	return p.cur.onListContinuationElement1653()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
+func (c *current) onListContinuationElement1658() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1658() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1658()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1660() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1662() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1662()
 }
 
-func (c *current) onListContinuationElement1583() (interface{}, error) {
+func (c *current) onListContinuationElement1664() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1583() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1583()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1587() (interface{}, error) {
+func (c *current) onListContinuationElement1668() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1587() (interface{}, error) {
+func (p *parser) callonListContinuationElement1668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1587()
+	return p.cur.onListContinuationElement1668()
 }
 
-func (c *current) onListContinuationElement1585() (interface{}, error) {
+func (c *current) onListContinuationElement1666() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585()
+	return p.cur.onListContinuationElement1666()
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1674() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1674()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1677() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1677()
 }
 
-func (c *current) onListContinuationElement1570(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1651(style interface{}) (interface{}, error) {
 	// there must be some content on the line
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1570() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1570(stack["style"])
+	return p.cur.onListContinuationElement1651(stack["style"])
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1693() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1693() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1693()
 }
 
-func (c *current) onListContinuationElement1615() (interface{}, error) {
+func (c *current) onListContinuationElement1696() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1696() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615()
+	return p.cur.onListContinuationElement1696()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1688() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1688()
 }
 
-func (c *current) onListContinuationElement1626() (interface{}, error) {
+func (c *current) onListContinuationElement1707() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1626() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1626()
+	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1628() (interface{}, error) {
+func (c *current) onListContinuationElement1709() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1628() (interface{}, error) {
+func (p *parser) callonListContinuationElement1709() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628()
+	return p.cur.onListContinuationElement1709()
 }
 
-func (c *current) onListContinuationElement1637() (interface{}, error) {
+func (c *current) onListContinuationElement1718() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1637() (interface{}, error) {
+func (p *parser) callonListContinuationElement1718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1637()
+	return p.cur.onListContinuationElement1718()
 }
 
-func (c *current) onListContinuationElement1644() (interface{}, error) {
+func (c *current) onListContinuationElement1725() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644()
+	return p.cur.onListContinuationElement1725()
 }
 
-func (c *current) onListContinuationElement1647(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1728(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1647() (bool, error) {
+func (p *parser) callonListContinuationElement1728() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647(stack["depth"])
+	return p.cur.onListContinuationElement1728(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1641(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1722(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -67674,756 +68652,756 @@ func (c *current) onListContinuationElement1641(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1641() (interface{}, error) {
+func (p *parser) callonListContinuationElement1722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641(stack["depth"])
+	return p.cur.onListContinuationElement1722(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1648() (interface{}, error) {
+func (c *current) onListContinuationElement1729() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1648() (interface{}, error) {
+func (p *parser) callonListContinuationElement1729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1648()
+	return p.cur.onListContinuationElement1729()
 }
 
-func (c *current) onListContinuationElement1653() (interface{}, error) {
+func (c *current) onListContinuationElement1734() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1653() (interface{}, error) {
+func (p *parser) callonListContinuationElement1734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1653()
+	return p.cur.onListContinuationElement1734()
 }
 
-func (c *current) onListContinuationElement1657() (interface{}, error) {
+func (c *current) onListContinuationElement1738() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1657() (interface{}, error) {
+func (p *parser) callonListContinuationElement1738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1657()
+	return p.cur.onListContinuationElement1738()
 }
 
-func (c *current) onListContinuationElement1661() (interface{}, error) {
+func (c *current) onListContinuationElement1742() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1661() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1661()
+	return p.cur.onListContinuationElement1742()
 }
 
-func (c *current) onListContinuationElement1666() (interface{}, error) {
+func (c *current) onListContinuationElement1747() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1666() (interface{}, error) {
+func (p *parser) callonListContinuationElement1747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1666()
+	return p.cur.onListContinuationElement1747()
 }
 
-func (c *current) onListContinuationElement1671(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1752(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1671() (interface{}, error) {
+func (p *parser) callonListContinuationElement1752() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1671(stack["prefix"])
+	return p.cur.onListContinuationElement1752(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1634(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1715(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634(stack["prefix"])
+	return p.cur.onListContinuationElement1715(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1678() (interface{}, error) {
+func (c *current) onListContinuationElement1759() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678()
+	return p.cur.onListContinuationElement1759()
 }
 
-func (c *current) onListContinuationElement1681() (interface{}, error) {
+func (c *current) onListContinuationElement1762() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681()
+	return p.cur.onListContinuationElement1762()
 }
 
-func (c *current) onListContinuationElement1686(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1767(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1686() (bool, error) {
+func (p *parser) callonListContinuationElement1767() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1686(stack["style"])
+	return p.cur.onListContinuationElement1767(stack["style"])
 }
 
-func (c *current) onListContinuationElement1687(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1768(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1687() (interface{}, error) {
+func (p *parser) callonListContinuationElement1768() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1687(stack["style"])
+	return p.cur.onListContinuationElement1768(stack["style"])
 }
 
-func (c *current) onListContinuationElement1675(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1756(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1675() (interface{}, error) {
+func (p *parser) callonListContinuationElement1756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1675(stack["style"])
+	return p.cur.onListContinuationElement1756(stack["style"])
 }
 
-func (c *current) onListContinuationElement1695() (interface{}, error) {
+func (c *current) onListContinuationElement1776() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1695() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695()
+	return p.cur.onListContinuationElement1776()
 }
 
-func (c *current) onListContinuationElement1699(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1780(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1699() (interface{}, error) {
+func (p *parser) callonListContinuationElement1780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1699(stack["ref"])
+	return p.cur.onListContinuationElement1780(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1691(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1772(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1691() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1691(stack["ref"])
+	return p.cur.onListContinuationElement1772(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1717() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1717() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1717()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1720(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1801(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1720() (bool, error) {
+func (p *parser) callonListContinuationElement1801() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["separator"])
+	return p.cur.onListContinuationElement1801(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1714(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1795(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1795() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["separator"])
+	return p.cur.onListContinuationElement1795(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
+func (c *current) onListContinuationElement1804() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1804()
 }
 
-func (c *current) onListContinuationElement1704() (interface{}, error) {
+func (c *current) onListContinuationElement1785() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1704() (interface{}, error) {
+func (p *parser) callonListContinuationElement1785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1704()
+	return p.cur.onListContinuationElement1785()
 }
 
-func (c *current) onListContinuationElement1734() (interface{}, error) {
+func (c *current) onListContinuationElement1815() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1734() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734()
+	return p.cur.onListContinuationElement1815()
 }
 
-func (c *current) onListContinuationElement1737(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1818(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1737() (bool, error) {
+func (p *parser) callonListContinuationElement1818() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737(stack["separator"])
+	return p.cur.onListContinuationElement1818(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1731(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1812(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731(stack["separator"])
+	return p.cur.onListContinuationElement1812(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1829() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1829()
 }
 
-func (c *current) onListContinuationElement1754() (interface{}, error) {
+func (c *current) onListContinuationElement1835() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1754() (interface{}, error) {
+func (p *parser) callonListContinuationElement1835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1754()
+	return p.cur.onListContinuationElement1835()
 }
 
-func (c *current) onListContinuationElement1757() (interface{}, error) {
+func (c *current) onListContinuationElement1838() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1757() (interface{}, error) {
+func (p *parser) callonListContinuationElement1838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1757()
+	return p.cur.onListContinuationElement1838()
 }
 
-func (c *current) onListContinuationElement1745(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1826(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745(stack["delimiter"])
+	return p.cur.onListContinuationElement1826(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1767() (interface{}, error) {
+func (c *current) onListContinuationElement1848() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767()
+	return p.cur.onListContinuationElement1848()
 }
 
-func (c *current) onListContinuationElement1773() (interface{}, error) {
+func (c *current) onListContinuationElement1854() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1773() (interface{}, error) {
+func (p *parser) callonListContinuationElement1854() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1773()
+	return p.cur.onListContinuationElement1854()
 }
 
-func (c *current) onListContinuationElement1776() (interface{}, error) {
+func (c *current) onListContinuationElement1857() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1857() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776()
+	return p.cur.onListContinuationElement1857()
 }
 
-func (c *current) onListContinuationElement1764(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1845(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1764() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1764(stack["delimiter"])
+	return p.cur.onListContinuationElement1845(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1787() (interface{}, error) {
+func (c *current) onListContinuationElement1868() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1787() (interface{}, error) {
+func (p *parser) callonListContinuationElement1868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1787()
+	return p.cur.onListContinuationElement1868()
 }
 
-func (c *current) onListContinuationElement1791() (interface{}, error) {
+func (c *current) onListContinuationElement1872() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1791() (interface{}, error) {
+func (p *parser) callonListContinuationElement1872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1791()
+	return p.cur.onListContinuationElement1872()
 }
 
-func (c *current) onListContinuationElement1794() (interface{}, error) {
+func (c *current) onListContinuationElement1875() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1794() (interface{}, error) {
+func (p *parser) callonListContinuationElement1875() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1794()
+	return p.cur.onListContinuationElement1875()
 }
 
-func (c *current) onListContinuationElement1783(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1864(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783(stack["language"])
+	return p.cur.onListContinuationElement1864(stack["language"])
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1885() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1885()
 }
 
-func (c *current) onListContinuationElement1810() (interface{}, error) {
+func (c *current) onListContinuationElement1891() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1810() (interface{}, error) {
+func (p *parser) callonListContinuationElement1891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1810()
+	return p.cur.onListContinuationElement1891()
 }
 
-func (c *current) onListContinuationElement1813() (interface{}, error) {
+func (c *current) onListContinuationElement1894() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
+func (p *parser) callonListContinuationElement1894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1813()
+	return p.cur.onListContinuationElement1894()
 }
 
-func (c *current) onListContinuationElement1801(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1882(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801(stack["delimiter"])
+	return p.cur.onListContinuationElement1882(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1904() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1904()
 }
 
-func (c *current) onListContinuationElement1829() (interface{}, error) {
+func (c *current) onListContinuationElement1910() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1829() (interface{}, error) {
+func (p *parser) callonListContinuationElement1910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1829()
+	return p.cur.onListContinuationElement1910()
 }
 
-func (c *current) onListContinuationElement1832() (interface{}, error) {
+func (c *current) onListContinuationElement1913() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1832() (interface{}, error) {
+func (p *parser) callonListContinuationElement1913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1832()
+	return p.cur.onListContinuationElement1913()
 }
 
-func (c *current) onListContinuationElement1820(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1901(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1901() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820(stack["delimiter"])
+	return p.cur.onListContinuationElement1901(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1923() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1923() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1923()
 }
 
-func (c *current) onListContinuationElement1848() (interface{}, error) {
+func (c *current) onListContinuationElement1929() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonListContinuationElement1929() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848()
+	return p.cur.onListContinuationElement1929()
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onListContinuationElement1932() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonListContinuationElement1932() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onListContinuationElement1932()
 }
 
-func (c *current) onListContinuationElement1839(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1920(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839(stack["delimiter"])
+	return p.cur.onListContinuationElement1920(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1942() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1942()
 }
 
-func (c *current) onListContinuationElement1867() (interface{}, error) {
+func (c *current) onListContinuationElement1948() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1867() (interface{}, error) {
+func (p *parser) callonListContinuationElement1948() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1867()
+	return p.cur.onListContinuationElement1948()
 }
 
-func (c *current) onListContinuationElement1870() (interface{}, error) {
+func (c *current) onListContinuationElement1951() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1870() (interface{}, error) {
+func (p *parser) callonListContinuationElement1951() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1870()
+	return p.cur.onListContinuationElement1951()
 }
 
-func (c *current) onListContinuationElement1858(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1939(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1939() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858(stack["delimiter"])
+	return p.cur.onListContinuationElement1939(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1961() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1961() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1961()
 }
 
-func (c *current) onListContinuationElement1886() (interface{}, error) {
+func (c *current) onListContinuationElement1967() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1886() (interface{}, error) {
+func (p *parser) callonListContinuationElement1967() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1886()
+	return p.cur.onListContinuationElement1967()
 }
 
-func (c *current) onListContinuationElement1889() (interface{}, error) {
+func (c *current) onListContinuationElement1970() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1889() (interface{}, error) {
+func (p *parser) callonListContinuationElement1970() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1889()
+	return p.cur.onListContinuationElement1970()
 }
 
-func (c *current) onListContinuationElement1877(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1958(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonListContinuationElement1958() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877(stack["delimiter"])
+	return p.cur.onListContinuationElement1958(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1899() (interface{}, error) {
+func (c *current) onListContinuationElement1980() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1899() (interface{}, error) {
+func (p *parser) callonListContinuationElement1980() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1899()
+	return p.cur.onListContinuationElement1980()
 }
 
-func (c *current) onListContinuationElement1905() (interface{}, error) {
+func (c *current) onListContinuationElement1986() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1905() (interface{}, error) {
+func (p *parser) callonListContinuationElement1986() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1905()
+	return p.cur.onListContinuationElement1986()
 }
 
-func (c *current) onListContinuationElement1908() (interface{}, error) {
+func (c *current) onListContinuationElement1989() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1908() (interface{}, error) {
+func (p *parser) callonListContinuationElement1989() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1908()
+	return p.cur.onListContinuationElement1989()
 }
 
-func (c *current) onListContinuationElement1896(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1977(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1896() (interface{}, error) {
+func (p *parser) callonListContinuationElement1977() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1896(stack["delimiter"])
+	return p.cur.onListContinuationElement1977(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1820(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onListContinuationElement1820(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1916() (interface{}, error) {
+func (c *current) onListContinuationElement1997() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1916() (interface{}, error) {
+func (p *parser) callonListContinuationElement1997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1916()
+	return p.cur.onListContinuationElement1997()
 }
 
-func (c *current) onListContinuationElement1920() (interface{}, error) {
+func (c *current) onListContinuationElement2001() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1920() (interface{}, error) {
+func (p *parser) callonListContinuationElement2001() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1920()
+	return p.cur.onListContinuationElement2001()
 }
 
-func (c *current) onListContinuationElement1604(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1685(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1604() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1604(stack["content"])
+	return p.cur.onListContinuationElement1685(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1647(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1566() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1647(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
@@ -73812,8 +74790,8 @@ func (p *parser) callonTableColumnsAttribute52() (interface{}, error) {
 }
 
 func (c *current) onTableColumnsAttribute57(multiplier, halign, valign, weight, style, comma interface{}) (bool, error) {
-	// make sure that at least something was set
-	// (otherwise the parser will run indefinitely)
+	// something
+	// was set
 	return multiplier != nil ||
 		halign != nil ||
 		valign != nil ||
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 9f9e5f9..049ba27 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2631,12 +2631,12 @@ TableLine <-
         return content, nil
     }
 
-InlineTableCells <- cells:(InlineTableCell)+ EOL { 
+InlineTableCells <- cells:(InlineTableCell)+ EOL &(BlankLine* (TableEndDelimiter / TableCellStart)) { 
     return cells, nil
 }
 
 InlineTableCell <- 
-    "|" Space* content:(InlineTableCellContent) // no format specifier supported when cells are "inline"
+    "|" Space* content:(InlineTableCellContent) // without format specifier
     {
         return types.NewInlineTableCell(content.(*types.RawLine))
     }
@@ -2648,13 +2648,18 @@ InlineTableCellContent <-
         return types.NewRawLine(content.(string))
     }
 
-MultilineTableCells <- cells:(MultilineTableCell)+ {
-    return cells, nil
+// the last cell of a row
+// may be on several lines....
+MultilineTableCells <- cells:(SinglelineTableCell)* last:(MultilineTableCell) {
+    return append(cells.([]interface{}), last), nil
 }
 
+SinglelineTableCell <- !TableEndDelimiter format:(TableCellFormat)? "|" Space* content:(InlineTableCellContent) &"|" {
+        return types.NewMultilineTableCell([]interface{}{content}, format)
+    }
+
 MultilineTableCell <- 
     !TableEndDelimiter
-    !BlankLine
     format:(TableCellFormat)? "|" Space* Newline? content:(MultilineTableCellContent)
     {
         return types.NewMultilineTableCell(content.([]interface{}), format)
@@ -2662,29 +2667,25 @@ MultilineTableCell <-
 
 MultilineTableCellContent <- 
     (
-        !TableEndDelimiter
-        !BlankLine
-        !(format:(TableCellFormat)? "|")
-        content:([^|\r\n]* {
-            return string(c.text), nil
-        }) EOL? {
-            return types.NewRawLine(content.(string))
+        !(BlankLine* (TableEndDelimiter / TableCellStart))
+        content:(InlineTableCellContent) EOL? {
+            return content, nil
         }
     )*
 
+TableCellStart <- ([0-9.]+ [*+])? [<^>]? ("." [<^>])? [a-z]? "|"
+
 TableCellFormat <- [^ |\r\n]* {
     return string(c.text), nil
 }
 
-// rule for the optional `cols` attribute on a Table
+// `cols` attribute
 TableColumnsAttribute <- cols:(Column)* EOF {
         return cols, nil
     }
 
 Column <- 
     NotEOF
-    // TODO: `multiplier` and `weight` with multiple digits and max values
-    // TODO: also support column styles
     multiplier:(n:Integer "*" { return n, nil })?
     halign:(
         "<" { return types.HAlignLeft, nil }
@@ -2698,11 +2699,10 @@ Column <-
     )?
     weight:(Integer / ("~" { return string(c.text), nil }))?
     style:([adehlms] { return string(c.text), nil })?
-    // style:(("a" / "e" / "h" / "l" / "m" / "s") { return string(c.text), nil })?
     comma:(",")?
     &{
-        // make sure that at least something was set
-        // (otherwise the parser will run indefinitely)
+        // something
+        // was set
         return multiplier != nil ||
             halign != nil ||
             valign != nil ||
-- 
2.43.0


From 7ac3636d19eefa765aaf7770b8fa097bd5cde34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 55/76] fix: gather the elements of unordered lists by their
 bullet, whatever the depth of the list

---
 .../document_processing_arrange_lists.go      | 44 +++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index f32acef..c4f1d65 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -113,13 +113,14 @@ content:
 		switch e := element.(type) {
 		case types.ListElement:
 			// adjust style/level if needed
+			bullet := lists.bulletFor(e)
 			e.AdjustStyle(lists.get())
 			list, err := types.NewList(e)
 			if err != nil {
 				return nil, errors.Wrap(err, "unable to assemble list elements")
 			}
 			log.Debugf("adding a new list of kind '%s'", list.Kind)
-			if err := lists.push(list); err != nil {
+			if err := lists.push(list, bullet); err != nil {
 				return nil, errors.Wrap(err, "unable to assemble list elements")
 			}
 		default:
@@ -129,8 +130,17 @@ content:
 	return lists.root(), nil
 }
 
+// bulletStyle returns the bullet style of the given list element (empty if it's not in an unordered list)
+func bulletStyle(e interface{}) types.UnorderedListElementBulletStyle {
+	if e, ok := e.(*types.UnorderedListElement); ok {
+		return e.BulletStyle
+	}
+	return ""
+}
+
 type listStack struct {
-	stack []*types.List
+	stack   []*types.List
+	bullets []types.UnorderedListElementBulletStyle // the bullets with which elements are added to the lists
 }
 
 func newListStack() *listStack {
@@ -146,7 +156,7 @@ func (s *listStack) root() *types.List {
 	return nil
 }
 
-func (s *listStack) push(l *types.List) error {
+func (s *listStack) push(l *types.List, bullet types.UnorderedListElementBulletStyle) error {
 	// also append to last element following the path from `root`
 	if len(s.stack) > 0 {
 		if err := s.stack[len(s.stack)-1].LastElement().AddElement(l); err != nil {
@@ -154,6 +164,7 @@ func (s *listStack) push(l *types.List) error {
 		}
 	}
 	s.stack = append(s.stack, l)
+	s.bullets = append(s.bullets[:len(s.stack)-1], bullet)
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("added list to stack (len=%d)", len(s.stack))
 	// }
@@ -178,6 +189,24 @@ func (s *listStack) pop() *types.List {
 	return l
 }
 
+// returns the bullet of the list to begin with the given element: the bullet in the document, unless it skips levels
+func (s *listStack) bulletFor(e interface{}) types.UnorderedListElementBulletStyle {
+	bullet := bulletStyle(e)
+	if len(s.stack) == 0 || bullet == "" || bullet == types.Dash {
+		return bullet
+	}
+	switch parent := s.bullets[len(s.stack)-1]; {
+	case parent == types.OneAsterisk:
+		return types.TwoAsterisks
+	case parent == types.TwoAsterisks && bullet != types.OneAsterisk:
+		return types.ThreeAsterisks
+	case parent == types.ThreeAsterisks && bullet == types.FiveAsterisks:
+		return types.FourAsterisks
+	default:
+		return bullet
+	}
+}
+
 func (s *listStack) parentFor(element interface{}) *types.List {
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("looking-up parent for %s", spew.Sdump(element))
@@ -189,7 +218,14 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	}
 	for i := len(s.stack) - 1; i >= 0; i-- {
 		// log.Debugf("checking stack at index %d", i)
-		if l := s.stack[i]; l.CanAddElement(element) {
+		l := s.stack[i]
+		if e, ok := element.(*types.UnorderedListElement); ok {
+			if e.BulletStyle != s.bullets[i] {
+				continue
+			}
+			e.BulletStyle = bulletStyle(l.LastElement()) // same as the other elements of the list
+		}
+		if l.CanAddElement(element) {
 			// if match, then `pop` all
 			// log.Debugf("found matching list of kind '%s' for element of type '%T' at index %d", l.Kind, element, i)
 			// clears the following content off the stack
-- 
2.43.0


From fa6c02555f08accbcb818e08d4816a3871bdf9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:31 +0000
Subject: [PATCH 56/76] fix: render the blocks attached to list elements as
 such when they are the first content of the element

---
 pkg/renderer/sgml/elements.go  | 14 ++++++++------
 pkg/renderer/sgml/paragraph.go |  4 +++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index ad9ff86..a460a79 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -22,21 +22,23 @@ func (r *sgmlRenderer) renderElements(ctx *context, elements []interface{}) (str
 }
 
 // renderListElements is similar to the `renderElements` func above,
-// but it sets the `withinList` context flag to true for the first element only
+// but it sets the `withinList` context flag to true for the first element only (if it's a paragraph)
 func (r *sgmlRenderer) renderListElements(ctx *context, elements []interface{}) (string, error) {
 	// log.Debugf("rendering list with %d element(s)...", len(elements))
 	buff := &strings.Builder{}
+	withinList := ctx.withinList
+	defer func() {
+		ctx.withinList = withinList
+	}()
 	for i, element := range elements {
-		if i == 0 {
-			ctx.withinList++
+		ctx.withinList = 0
+		if _, ok := element.(*types.Paragraph); ok && i == 0 {
+			ctx.withinList = 1
 		}
 		renderedElement, err := r.renderElement(ctx, element)
 		if err != nil {
 			return "", errors.Wrap(err, "unable to render a list element")
 		}
-		if i == 0 {
-			ctx.withinList--
-		}
 		buff.WriteString(renderedElement)
 	}
 	return buff.String(), nil
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index a69aa6a..a7bc638 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -10,7 +10,9 @@ import (
 
 func (r *sgmlRenderer) renderParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debugf("rendering a regular paragraph with style '%v' and embedded: %t", p.Attributes[types.AttrStyle], (ctx.withinDelimitedBlock || ctx.withinList > 0))
-	if ctx.withinDelimitedBlock || ctx.withinList > 0 {
+	// note: a paragraph attached to a list element may be the first one, too (if there is no description in a labeled list)
+	attached := p.Attributes.Has(types.AttrStyle) || p.Attributes.Has(types.AttrTitle) || p.Attributes.Has(types.AttrID) || p.Attributes.Has(types.AttrRoles)
+	if ctx.withinDelimitedBlock || (ctx.withinList > 0 && !attached) {
 		return r.renderEmbeddedParagraph(ctx, p, "")
 	}
 	switch p.Attributes[types.AttrStyle] {
-- 
2.43.0


From c52398b35c75c0a9d9369a9a6501ae377f4d200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 57/76] fix: refer to the footnote when its name is defined
 again, instead of another footnote with the same id

---
 pkg/types/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 121c6a0..299b59d 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2346,14 +2346,15 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		log.Debug("referencing footnote")
 	}
 	r := &FootnoteReference{}
-	if len(note.Elements) > 0 {
+	if id, found := f.indexOf(note); found && note.Ref != "" {
+		// already defined (the content is ignored, if any)
+		r.ID = id
+		r.Duplicate = true
+	} else if len(note.Elements) > 0 {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
 		substituteFootnotes(note.Elements, f) // footnotes within the footnote
-	} else if id, found := f.indexOf(note); found && note.Ref != "" {
-		r.ID = id
-		r.Duplicate = true
 	} else {
 		r.ID = InvalidFootnoteReference
 		log.Warnf("no footnote with reference '%s'", note.Ref)
-- 
2.43.0


From 31bfcd4edba5a616ca44b90b19b2668f46066404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 58/76] fix: render the quoted text, links and footnotes of
 verse paragraphs, as in verse blocks

---
 pkg/renderer/sgml/delimited_block_verse.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index 6254420..606f4de 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -46,7 +46,12 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
-	content, err := RenderParagraphElements(p)
+	previousWithinDelimitedBlock := ctx.withinDelimitedBlock
+	defer func() {
+		ctx.withinDelimitedBlock = previousWithinDelimitedBlock
+	}()
+	ctx.withinDelimitedBlock = true
+	content, err := r.renderElements(ctx, p.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
@@ -66,6 +71,6 @@ func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (s
 		ID:          r.renderElementID(p.Attributes),
 		Title:       title,
 		Attribution: attribution,
-		Content:     string(content),
+		Content:     strings.Trim(content, "\n"),
 	})
 }
-- 
2.43.0


From ff6866aeba588052b13ab06618b0dfbd8c049506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:04 +0000
Subject: [PATCH 59/76] fix: ignore the spaces at the end of attribute
 declarations, and the byte order mark at the start of files

---
 pkg/parser/document_preprocessing.go | 10 ++++++++
 pkg/parser/parser.go                 | 34 ++++++++++++++++++++++++----
 pkg/parser/parser.peg                |  6 ++---
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 195fbd7..de0c2b4 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -109,6 +110,15 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 func newScanner(source io.Reader) *bufio.Scanner {
 	scanner := bufio.NewScanner(source)
 	scanner.Buffer(nil, math.MaxInt)
+	start := true
+	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, line, err := bufio.ScanLines(data, atEOF)
+		if start && line != nil {
+			start = false
+			line = bytes.TrimPrefix(line, []byte("\ufeff")) // byte order mark
+		}
+		return advance, line, err
+	})
 	return scanner
 }
 
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index aa9ec6a..a45120f 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -10916,10 +10916,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 306, col: 9, offset: 9368},
+												pos:   position{line: 306, col: 9, offset: 9362},
 												label: "value",
 												expr: &ruleRefExpr{
-													pos:  position{line: 306, col: 16, offset: 9375},
+													pos:  position{line: 306, col: 16, offset: 9369},
 													name: "AttributeDeclarationValue",
 												},
 											},
@@ -10928,12 +10928,26 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 310, col: 5, offset: 9449},
+							expr: &actionExpr{
+								pos: position{line: 2875, col: 10, offset: 90978},
+								run: (*parser).callonAttributeDeclaration21,
+								expr: &charClassMatcher{
+									pos:        position{line: 2875, col: 10, offset: 90978},
+									val:        "[\\t ]",
+									chars:      []rune{'\t', ' '},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+						},
 						&choiceExpr{
 							pos: position{line: 2897, col: 8, offset: 91376},
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2884, col: 12, offset: 91149},
-									run: (*parser).callonAttributeDeclaration21,
+									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
 										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
@@ -54817,8 +54831,9 @@ func (p *parser) callonAttributeDeclaration13() (interface{}, error) {
 }
 
 func (c *current) onAttributeDeclaration21() (interface{}, error) {
-	// TODO: just use "\n"
+
 	return string(c.text), nil
+
 }
 
 func (p *parser) callonAttributeDeclaration21() (interface{}, error) {
@@ -54827,6 +54842,17 @@ func (p *parser) callonAttributeDeclaration21() (interface{}, error) {
 	return p.cur.onAttributeDeclaration21()
 }
 
+func (c *current) onAttributeDeclaration24() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonAttributeDeclaration24() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclaration24()
+}
+
 func (c *current) onAttributeDeclaration1(name, value interface{}) (interface{}, error) {
 	return types.NewAttributeDeclaration(name.(string), value, string(c.text))
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 049ba27..f305b69 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -302,12 +302,12 @@ FrontMatterFragmentElement <-
 AttributeDeclaration <- 
     ":" name:(AttributeName) ":" 
     value:(
-        Spaces // value is optional, but there must be a space between `:` and value itself
+        Spaces // value is optional, but there must be spaces between `:` and a value
         value:(AttributeDeclarationValue) {
             return value, nil
         }
-    )? 
-    EOL
+    )?
+    Space* EOL
     {
         return types.NewAttributeDeclaration(name.(string), value, string(c.text))
     }
-- 
2.43.0


From c7e3605203a2c266a8f6f0c24fe073c6317fc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:40 +0000
Subject: [PATCH 60/76] fix: the list continuation on the last line is not a
 line break

---
 pkg/parser/parser.go  | 1356 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    2 +-
 2 files changed, 701 insertions(+), 657 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a45120f..88bb032 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -28027,29 +28027,40 @@ var g = &grammar{
 																	},
 																},
 															},
-															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonExtraListElement528,
-																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 13, offset: 91150},
-																	alternatives: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 2884, col: 13, offset: 91150},
-																			val:        "\n",
-																			ignoreCase: false,
-																			want:       "\"\\n\"",
-																		},
-																		&litMatcher{
-																			pos:        position{line: 2884, col: 20, offset: 91157},
-																			val:        "\r\n",
-																			ignoreCase: false,
-																			want:       "\"\\r\\n\"",
+															&choiceExpr{
+																pos: position{line: 2897, col: 8, offset: 91376},
+																alternatives: []interface{}{
+																	&actionExpr{
+																		pos: position{line: 2884, col: 12, offset: 91149},
+																		run: (*parser).callonExtraListElement529,
+																		expr: &choiceExpr{
+																			pos: position{line: 2884, col: 13, offset: 91150},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2884, col: 13, offset: 91150},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2884, col: 20, offset: 91157},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2884, col: 29, offset: 91166},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 2884, col: 29, offset: 91166},
-																			val:        "\r",
-																			ignoreCase: false,
-																			want:       "\"\\r\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 2894, col: 8, offset: 91326},
+																		expr: &anyMatcher{
+																			line: 2894, col: 9, offset: 91327,
 																		},
 																	},
 																},
@@ -28061,7 +28072,7 @@ var g = &grammar{
 													pos: position{line: 1507, col: 5, offset: 48882},
 													expr: &actionExpr{
 														pos: position{line: 1577, col: 5, offset: 50899},
-														run: (*parser).callonExtraListElement534,
+														run: (*parser).callonExtraListElement537,
 														expr: &seqExpr{
 															pos: position{line: 1577, col: 5, offset: 50899},
 															exprs: []interface{}{
@@ -28069,7 +28080,7 @@ var g = &grammar{
 																	pos: position{line: 1577, col: 5, offset: 50899},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonExtraListElement537,
+																		run: (*parser).callonExtraListElement540,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -28087,7 +28098,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1579, col: 9, offset: 50969},
-																				run: (*parser).callonExtraListElement541,
+																				run: (*parser).callonExtraListElement544,
 																				expr: &seqExpr{
 																					pos: position{line: 1579, col: 9, offset: 50969},
 																					exprs: []interface{}{
@@ -28096,7 +28107,7 @@ var g = &grammar{
 																							label: "depth",
 																							expr: &actionExpr{
 																								pos: position{line: 1579, col: 16, offset: 50976},
-																								run: (*parser).callonExtraListElement544,
+																								run: (*parser).callonExtraListElement547,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1579, col: 16, offset: 50976},
 																									expr: &litMatcher{
@@ -28110,14 +28121,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1583, col: 9, offset: 51077},
-																							run: (*parser).callonExtraListElement547,
+																							run: (*parser).callonExtraListElement550,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
 																				pos: position{line: 1602, col: 11, offset: 51794},
-																				run: (*parser).callonExtraListElement548,
+																				run: (*parser).callonExtraListElement551,
 																				expr: &seqExpr{
 																					pos: position{line: 1602, col: 11, offset: 51794},
 																					exprs: []interface{}{
@@ -28142,7 +28153,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1604, col: 13, offset: 51920},
-																				run: (*parser).callonExtraListElement553,
+																				run: (*parser).callonExtraListElement556,
 																				expr: &seqExpr{
 																					pos: position{line: 1604, col: 13, offset: 51920},
 																					exprs: []interface{}{
@@ -28164,7 +28175,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1606, col: 13, offset: 52048},
-																				run: (*parser).callonExtraListElement557,
+																				run: (*parser).callonExtraListElement560,
 																				expr: &seqExpr{
 																					pos: position{line: 1606, col: 13, offset: 52048},
 																					exprs: []interface{}{
@@ -28186,7 +28197,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1608, col: 13, offset: 52176},
-																				run: (*parser).callonExtraListElement561,
+																				run: (*parser).callonExtraListElement564,
 																				expr: &seqExpr{
 																					pos: position{line: 1608, col: 13, offset: 52176},
 																					exprs: []interface{}{
@@ -28211,7 +28222,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1610, col: 13, offset: 52309},
-																				run: (*parser).callonExtraListElement566,
+																				run: (*parser).callonExtraListElement569,
 																				expr: &seqExpr{
 																					pos: position{line: 1610, col: 13, offset: 52309},
 																					exprs: []interface{}{
@@ -28239,7 +28250,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2879, col: 11, offset: 91039},
-																	run: (*parser).callonExtraListElement571,
+																	run: (*parser).callonExtraListElement574,
 																	expr: &oneOrMoreExpr{
 																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
@@ -28259,7 +28270,7 @@ var g = &grammar{
 													pos: position{line: 1508, col: 5, offset: 48912},
 													expr: &actionExpr{
 														pos: position{line: 1627, col: 5, offset: 52861},
-														run: (*parser).callonExtraListElement575,
+														run: (*parser).callonExtraListElement578,
 														expr: &seqExpr{
 															pos: position{line: 1627, col: 5, offset: 52861},
 															exprs: []interface{}{
@@ -28267,7 +28278,7 @@ var g = &grammar{
 																	pos: position{line: 1627, col: 5, offset: 52861},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonExtraListElement578,
+																		run: (*parser).callonExtraListElement581,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -28282,7 +28293,7 @@ var g = &grammar{
 																	label: "style",
 																	expr: &actionExpr{
 																		pos: position{line: 1629, col: 9, offset: 52889},
-																		run: (*parser).callonExtraListElement581,
+																		run: (*parser).callonExtraListElement584,
 																		expr: &choiceExpr{
 																			pos: position{line: 1629, col: 10, offset: 52890},
 																			alternatives: []interface{}{
@@ -28307,11 +28318,11 @@ var g = &grammar{
 																},
 																&andCodeExpr{
 																	pos: position{line: 1632, col: 7, offset: 52989},
-																	run: (*parser).callonExtraListElement586,
+																	run: (*parser).callonExtraListElement589,
 																},
 																&actionExpr{
 																	pos: position{line: 2879, col: 11, offset: 91039},
-																	run: (*parser).callonExtraListElement587,
+																	run: (*parser).callonExtraListElement590,
 																	expr: &oneOrMoreExpr{
 																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
@@ -28331,7 +28342,7 @@ var g = &grammar{
 													pos: position{line: 1509, col: 5, offset: 48944},
 													expr: &actionExpr{
 														pos: position{line: 1717, col: 5, offset: 55430},
-														run: (*parser).callonExtraListElement591,
+														run: (*parser).callonExtraListElement594,
 														expr: &seqExpr{
 															pos: position{line: 1717, col: 5, offset: 55430},
 															exprs: []interface{}{
@@ -28346,7 +28357,7 @@ var g = &grammar{
 																	label: "ref",
 																	expr: &actionExpr{
 																		pos: position{line: 1717, col: 14, offset: 55439},
-																		run: (*parser).callonExtraListElement595,
+																		run: (*parser).callonExtraListElement598,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 1717, col: 14, offset: 55439},
 																			expr: &charClassMatcher{
@@ -28367,7 +28378,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2879, col: 11, offset: 91039},
-																	run: (*parser).callonExtraListElement599,
+																	run: (*parser).callonExtraListElement602,
 																	expr: &oneOrMoreExpr{
 																		pos: position{line: 2879, col: 11, offset: 91039},
 																		expr: &charClassMatcher{
@@ -28390,7 +28401,7 @@ var g = &grammar{
 														exprs: []interface{}{
 															&actionExpr{
 																pos: position{line: 1662, col: 5, offset: 53880},
-																run: (*parser).callonExtraListElement604,
+																run: (*parser).callonExtraListElement607,
 																expr: &seqExpr{
 																	pos: position{line: 1662, col: 5, offset: 53880},
 																	exprs: []interface{}{
@@ -28426,7 +28437,7 @@ var g = &grammar{
 																						pos: position{line: 1663, col: 6, offset: 53913},
 																						expr: &actionExpr{
 																							pos: position{line: 1668, col: 5, offset: 54063},
-																							run: (*parser).callonExtraListElement614,
+																							run: (*parser).callonExtraListElement617,
 																							expr: &seqExpr{
 																								pos: position{line: 1668, col: 5, offset: 54063},
 																								exprs: []interface{}{
@@ -28435,7 +28446,7 @@ var g = &grammar{
 																										label: "separator",
 																										expr: &actionExpr{
 																											pos: position{line: 1668, col: 16, offset: 54074},
-																											run: (*parser).callonExtraListElement617,
+																											run: (*parser).callonExtraListElement620,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1668, col: 16, offset: 54074},
 																												expr: &litMatcher{
@@ -28449,7 +28460,7 @@ var g = &grammar{
 																									},
 																									&andCodeExpr{
 																										pos: position{line: 1671, col: 5, offset: 54132},
-																										run: (*parser).callonExtraListElement620,
+																										run: (*parser).callonExtraListElement623,
 																									},
 																								},
 																							},
@@ -28462,7 +28473,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement623,
+																									run: (*parser).callonExtraListElement626,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28507,7 +28518,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1668, col: 5, offset: 54063},
-																run: (*parser).callonExtraListElement631,
+																run: (*parser).callonExtraListElement634,
 																expr: &seqExpr{
 																	pos: position{line: 1668, col: 5, offset: 54063},
 																	exprs: []interface{}{
@@ -28516,7 +28527,7 @@ var g = &grammar{
 																			label: "separator",
 																			expr: &actionExpr{
 																				pos: position{line: 1668, col: 16, offset: 54074},
-																				run: (*parser).callonExtraListElement634,
+																				run: (*parser).callonExtraListElement637,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1668, col: 16, offset: 54074},
 																					expr: &litMatcher{
@@ -28530,7 +28541,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1671, col: 5, offset: 54132},
-																			run: (*parser).callonExtraListElement637,
+																			run: (*parser).callonExtraListElement640,
 																		},
 																	},
 																},
@@ -28542,7 +28553,7 @@ var g = &grammar{
 													pos: position{line: 1511, col: 5, offset: 49032},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23086},
-														run: (*parser).callonExtraListElement639,
+														run: (*parser).callonExtraListElement642,
 														expr: &seqExpr{
 															pos: position{line: 724, col: 5, offset: 23086},
 															exprs: []interface{}{
@@ -28564,7 +28575,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 740, col: 5, offset: 23628},
-																				run: (*parser).callonExtraListElement645,
+																				run: (*parser).callonExtraListElement648,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 5, offset: 23628},
 																					exprs: []interface{}{
@@ -28573,7 +28584,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 16, offset: 23639},
-																								run: (*parser).callonExtraListElement648,
+																								run: (*parser).callonExtraListElement651,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 16, offset: 23639},
 																									exprs: []interface{}{
@@ -28600,7 +28611,7 @@ var g = &grammar{
 																							pos: position{line: 742, col: 8, offset: 23730},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement654,
+																								run: (*parser).callonExtraListElement657,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28615,7 +28626,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement657,
+																									run: (*parser).callonExtraListElement660,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28653,7 +28664,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23876},
-																				run: (*parser).callonExtraListElement664,
+																				run: (*parser).callonExtraListElement667,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23876},
 																					exprs: []interface{}{
@@ -28662,7 +28673,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23887},
-																								run: (*parser).callonExtraListElement667,
+																								run: (*parser).callonExtraListElement670,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23887},
 																									exprs: []interface{}{
@@ -28689,7 +28700,7 @@ var g = &grammar{
 																							pos: position{line: 749, col: 8, offset: 23978},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement673,
+																								run: (*parser).callonExtraListElement676,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28704,7 +28715,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement676,
+																									run: (*parser).callonExtraListElement679,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28742,7 +28753,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 760, col: 26, offset: 24364},
-																				run: (*parser).callonExtraListElement683,
+																				run: (*parser).callonExtraListElement686,
 																				expr: &seqExpr{
 																					pos: position{line: 760, col: 26, offset: 24364},
 																					exprs: []interface{}{
@@ -28757,7 +28768,7 @@ var g = &grammar{
 																							label: "language",
 																							expr: &actionExpr{
 																								pos: position{line: 764, col: 13, offset: 24500},
-																								run: (*parser).callonExtraListElement687,
+																								run: (*parser).callonExtraListElement690,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 764, col: 14, offset: 24501},
 																									expr: &charClassMatcher{
@@ -28774,7 +28785,7 @@ var g = &grammar{
 																							pos: position{line: 760, col: 52, offset: 24390},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement691,
+																								run: (*parser).callonExtraListElement694,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28789,7 +28800,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement694,
+																									run: (*parser).callonExtraListElement697,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28827,7 +28838,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24123},
-																				run: (*parser).callonExtraListElement701,
+																				run: (*parser).callonExtraListElement704,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24123},
 																					exprs: []interface{}{
@@ -28836,7 +28847,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24134},
-																								run: (*parser).callonExtraListElement704,
+																								run: (*parser).callonExtraListElement707,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24134},
 																									exprs: []interface{}{
@@ -28863,7 +28874,7 @@ var g = &grammar{
 																							pos: position{line: 756, col: 8, offset: 24224},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement710,
+																								run: (*parser).callonExtraListElement713,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28878,7 +28889,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement713,
+																									run: (*parser).callonExtraListElement716,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28916,7 +28927,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24660},
-																				run: (*parser).callonExtraListElement720,
+																				run: (*parser).callonExtraListElement723,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24660},
 																					exprs: []interface{}{
@@ -28925,7 +28936,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24671},
-																								run: (*parser).callonExtraListElement723,
+																								run: (*parser).callonExtraListElement726,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24671},
 																									exprs: []interface{}{
@@ -28952,7 +28963,7 @@ var g = &grammar{
 																							pos: position{line: 771, col: 8, offset: 24762},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement729,
+																								run: (*parser).callonExtraListElement732,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28967,7 +28978,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement732,
+																									run: (*parser).callonExtraListElement735,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29005,7 +29016,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25136},
-																				run: (*parser).callonExtraListElement739,
+																				run: (*parser).callonExtraListElement742,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25136},
 																					exprs: []interface{}{
@@ -29014,7 +29025,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25147},
-																								run: (*parser).callonExtraListElement742,
+																								run: (*parser).callonExtraListElement745,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25147},
 																									exprs: []interface{}{
@@ -29041,7 +29052,7 @@ var g = &grammar{
 																							pos: position{line: 785, col: 8, offset: 25238},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement748,
+																								run: (*parser).callonExtraListElement751,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29056,7 +29067,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement751,
+																									run: (*parser).callonExtraListElement754,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29094,7 +29105,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25388},
-																				run: (*parser).callonExtraListElement758,
+																				run: (*parser).callonExtraListElement761,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25388},
 																					exprs: []interface{}{
@@ -29103,7 +29114,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25399},
-																								run: (*parser).callonExtraListElement761,
+																								run: (*parser).callonExtraListElement764,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25399},
 																									exprs: []interface{}{
@@ -29130,7 +29141,7 @@ var g = &grammar{
 																							pos: position{line: 792, col: 8, offset: 25490},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement767,
+																								run: (*parser).callonExtraListElement770,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29145,7 +29156,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement770,
+																									run: (*parser).callonExtraListElement773,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29183,7 +29194,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25638},
-																				run: (*parser).callonExtraListElement777,
+																				run: (*parser).callonExtraListElement780,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25638},
 																					exprs: []interface{}{
@@ -29192,7 +29203,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25649},
-																								run: (*parser).callonExtraListElement780,
+																								run: (*parser).callonExtraListElement783,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25649},
 																									exprs: []interface{}{
@@ -29219,7 +29230,7 @@ var g = &grammar{
 																							pos: position{line: 799, col: 8, offset: 25740},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement786,
+																								run: (*parser).callonExtraListElement789,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29234,7 +29245,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement789,
+																									run: (*parser).callonExtraListElement792,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29272,7 +29283,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25884},
-																				run: (*parser).callonExtraListElement796,
+																				run: (*parser).callonExtraListElement799,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25884},
 																					exprs: []interface{}{
@@ -29281,7 +29292,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25895},
-																								run: (*parser).callonExtraListElement799,
+																								run: (*parser).callonExtraListElement802,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25895},
 																									exprs: []interface{}{
@@ -29308,7 +29319,7 @@ var g = &grammar{
 																							pos: position{line: 806, col: 8, offset: 25986},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement805,
+																								run: (*parser).callonExtraListElement808,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29323,7 +29334,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement808,
+																									run: (*parser).callonExtraListElement811,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29371,7 +29382,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2825, col: 14, offset: 89571},
-														run: (*parser).callonExtraListElement816,
+														run: (*parser).callonExtraListElement819,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 2825, col: 14, offset: 89571},
 															expr: &charClassMatcher{
@@ -29389,7 +29400,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonExtraListElement820,
+															run: (*parser).callonExtraListElement823,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -29514,29 +29525,40 @@ var g = &grammar{
 								},
 							},
 						},
-						&actionExpr{
-							pos: position{line: 2884, col: 12, offset: 91149},
-							run: (*parser).callonListContinuation18,
-							expr: &choiceExpr{
-								pos: position{line: 2884, col: 13, offset: 91150},
-								alternatives: []interface{}{
-									&litMatcher{
-										pos:        position{line: 2884, col: 13, offset: 91150},
-										val:        "\n",
-										ignoreCase: false,
-										want:       "\"\\n\"",
-									},
-									&litMatcher{
-										pos:        position{line: 2884, col: 20, offset: 91157},
-										val:        "\r\n",
-										ignoreCase: false,
-										want:       "\"\\r\\n\"",
+						&choiceExpr{
+							pos: position{line: 2897, col: 8, offset: 91376},
+							alternatives: []interface{}{
+								&actionExpr{
+									pos: position{line: 2884, col: 12, offset: 91149},
+									run: (*parser).callonListContinuation19,
+									expr: &choiceExpr{
+										pos: position{line: 2884, col: 13, offset: 91150},
+										alternatives: []interface{}{
+											&litMatcher{
+												pos:        position{line: 2884, col: 13, offset: 91150},
+												val:        "\n",
+												ignoreCase: false,
+												want:       "\"\\n\"",
+											},
+											&litMatcher{
+												pos:        position{line: 2884, col: 20, offset: 91157},
+												val:        "\r\n",
+												ignoreCase: false,
+												want:       "\"\\r\\n\"",
+											},
+											&litMatcher{
+												pos:        position{line: 2884, col: 29, offset: 91166},
+												val:        "\r",
+												ignoreCase: false,
+												want:       "\"\\r\"",
+											},
+										},
 									},
-									&litMatcher{
-										pos:        position{line: 2884, col: 29, offset: 91166},
-										val:        "\r",
-										ignoreCase: false,
-										want:       "\"\\r\"",
+								},
+								&notExpr{
+									pos: position{line: 2894, col: 8, offset: 91326},
+									expr: &anyMatcher{
+										line: 2894, col: 9, offset: 91327,
 									},
 								},
 							},
@@ -37280,29 +37302,40 @@ var g = &grammar{
 																					},
 																				},
 																			},
-																			&actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonListContinuationElement1709,
-																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 13, offset: 91150},
-																					alternatives: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 2884, col: 13, offset: 91150},
-																							val:        "\n",
-																							ignoreCase: false,
-																							want:       "\"\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2884, col: 20, offset: 91157},
-																							val:        "\r\n",
-																							ignoreCase: false,
-																							want:       "\"\\r\\n\"",
+																			&choiceExpr{
+																				pos: position{line: 2897, col: 8, offset: 91376},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2884, col: 12, offset: 91149},
+																						run: (*parser).callonListContinuationElement1710,
+																						expr: &choiceExpr{
+																							pos: position{line: 2884, col: 13, offset: 91150},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2884, col: 13, offset: 91150},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2884, col: 20, offset: 91157},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2884, col: 29, offset: 91166},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
+																								},
+																							},
 																						},
-																						&litMatcher{
-																							pos:        position{line: 2884, col: 29, offset: 91166},
-																							val:        "\r",
-																							ignoreCase: false,
-																							want:       "\"\\r\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 2894, col: 8, offset: 91326},
+																						expr: &anyMatcher{
+																							line: 2894, col: 9, offset: 91327,
 																						},
 																					},
 																				},
@@ -37314,7 +37347,7 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48882},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50899},
-																		run: (*parser).callonListContinuationElement1715,
+																		run: (*parser).callonListContinuationElement1718,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50899},
 																			exprs: []interface{}{
@@ -37322,7 +37355,7 @@ var g = &grammar{
 																					pos: position{line: 1577, col: 5, offset: 50899},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1718,
+																						run: (*parser).callonListContinuationElement1721,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -37340,7 +37373,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50969},
-																								run: (*parser).callonListContinuationElement1722,
+																								run: (*parser).callonListContinuationElement1725,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50969},
 																									exprs: []interface{}{
@@ -37349,7 +37382,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50976},
-																												run: (*parser).callonListContinuationElement1725,
+																												run: (*parser).callonListContinuationElement1728,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50976},
 																													expr: &litMatcher{
@@ -37363,14 +37396,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51077},
-																											run: (*parser).callonListContinuationElement1728,
+																											run: (*parser).callonListContinuationElement1731,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51794},
-																								run: (*parser).callonListContinuationElement1729,
+																								run: (*parser).callonListContinuationElement1732,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51794},
 																									exprs: []interface{}{
@@ -37395,7 +37428,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51920},
-																								run: (*parser).callonListContinuationElement1734,
+																								run: (*parser).callonListContinuationElement1737,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51920},
 																									exprs: []interface{}{
@@ -37417,7 +37450,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52048},
-																								run: (*parser).callonListContinuationElement1738,
+																								run: (*parser).callonListContinuationElement1741,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52048},
 																									exprs: []interface{}{
@@ -37439,7 +37472,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52176},
-																								run: (*parser).callonListContinuationElement1742,
+																								run: (*parser).callonListContinuationElement1745,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52176},
 																									exprs: []interface{}{
@@ -37464,7 +37497,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52309},
-																								run: (*parser).callonListContinuationElement1747,
+																								run: (*parser).callonListContinuationElement1750,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52309},
 																									exprs: []interface{}{
@@ -37492,7 +37525,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1752,
+																					run: (*parser).callonListContinuationElement1755,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -37512,7 +37545,7 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48912},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52861},
-																		run: (*parser).callonListContinuationElement1756,
+																		run: (*parser).callonListContinuationElement1759,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52861},
 																			exprs: []interface{}{
@@ -37520,7 +37553,7 @@ var g = &grammar{
 																					pos: position{line: 1627, col: 5, offset: 52861},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1759,
+																						run: (*parser).callonListContinuationElement1762,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -37535,7 +37568,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52889},
-																						run: (*parser).callonListContinuationElement1762,
+																						run: (*parser).callonListContinuationElement1765,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52890},
 																							alternatives: []interface{}{
@@ -37560,11 +37593,11 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52989},
-																					run: (*parser).callonListContinuationElement1767,
+																					run: (*parser).callonListContinuationElement1770,
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1768,
+																					run: (*parser).callonListContinuationElement1771,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -37584,7 +37617,7 @@ var g = &grammar{
 																	pos: position{line: 1509, col: 5, offset: 48944},
 																	expr: &actionExpr{
 																		pos: position{line: 1717, col: 5, offset: 55430},
-																		run: (*parser).callonListContinuationElement1772,
+																		run: (*parser).callonListContinuationElement1775,
 																		expr: &seqExpr{
 																			pos: position{line: 1717, col: 5, offset: 55430},
 																			exprs: []interface{}{
@@ -37599,7 +37632,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1717, col: 14, offset: 55439},
-																						run: (*parser).callonListContinuationElement1776,
+																						run: (*parser).callonListContinuationElement1779,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1717, col: 14, offset: 55439},
 																							expr: &charClassMatcher{
@@ -37620,7 +37653,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1780,
+																					run: (*parser).callonListContinuationElement1783,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -37643,7 +37676,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53880},
-																				run: (*parser).callonListContinuationElement1785,
+																				run: (*parser).callonListContinuationElement1788,
 																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53880},
 																					exprs: []interface{}{
@@ -37679,7 +37712,7 @@ var g = &grammar{
 																										pos: position{line: 1663, col: 6, offset: 53913},
 																										expr: &actionExpr{
 																											pos: position{line: 1668, col: 5, offset: 54063},
-																											run: (*parser).callonListContinuationElement1795,
+																											run: (*parser).callonListContinuationElement1798,
 																											expr: &seqExpr{
 																												pos: position{line: 1668, col: 5, offset: 54063},
 																												exprs: []interface{}{
@@ -37688,7 +37721,7 @@ var g = &grammar{
 																														label: "separator",
 																														expr: &actionExpr{
 																															pos: position{line: 1668, col: 16, offset: 54074},
-																															run: (*parser).callonListContinuationElement1798,
+																															run: (*parser).callonListContinuationElement1801,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 1668, col: 16, offset: 54074},
 																																expr: &litMatcher{
@@ -37702,7 +37735,7 @@ var g = &grammar{
 																													},
 																													&andCodeExpr{
 																														pos: position{line: 1671, col: 5, offset: 54132},
-																														run: (*parser).callonListContinuationElement1801,
+																														run: (*parser).callonListContinuationElement1804,
 																													},
 																												},
 																											},
@@ -37715,7 +37748,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1804,
+																													run: (*parser).callonListContinuationElement1807,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37760,7 +37793,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1668, col: 5, offset: 54063},
-																				run: (*parser).callonListContinuationElement1812,
+																				run: (*parser).callonListContinuationElement1815,
 																				expr: &seqExpr{
 																					pos: position{line: 1668, col: 5, offset: 54063},
 																					exprs: []interface{}{
@@ -37769,7 +37802,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1668, col: 16, offset: 54074},
-																								run: (*parser).callonListContinuationElement1815,
+																								run: (*parser).callonListContinuationElement1818,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1668, col: 16, offset: 54074},
 																									expr: &litMatcher{
@@ -37783,7 +37816,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1671, col: 5, offset: 54132},
-																							run: (*parser).callonListContinuationElement1818,
+																							run: (*parser).callonListContinuationElement1821,
 																						},
 																					},
 																				},
@@ -37795,7 +37828,7 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 49032},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23086},
-																		run: (*parser).callonListContinuationElement1820,
+																		run: (*parser).callonListContinuationElement1823,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23086},
 																			exprs: []interface{}{
@@ -37817,7 +37850,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23628},
-																								run: (*parser).callonListContinuationElement1826,
+																								run: (*parser).callonListContinuationElement1829,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23628},
 																									exprs: []interface{}{
@@ -37826,7 +37859,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23639},
-																												run: (*parser).callonListContinuationElement1829,
+																												run: (*parser).callonListContinuationElement1832,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23639},
 																													exprs: []interface{}{
@@ -37853,7 +37886,7 @@ var g = &grammar{
 																											pos: position{line: 742, col: 8, offset: 23730},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1835,
+																												run: (*parser).callonListContinuationElement1838,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37868,7 +37901,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1838,
+																													run: (*parser).callonListContinuationElement1841,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37906,7 +37939,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23876},
-																								run: (*parser).callonListContinuationElement1845,
+																								run: (*parser).callonListContinuationElement1848,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23876},
 																									exprs: []interface{}{
@@ -37915,7 +37948,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23887},
-																												run: (*parser).callonListContinuationElement1848,
+																												run: (*parser).callonListContinuationElement1851,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23887},
 																													exprs: []interface{}{
@@ -37942,7 +37975,7 @@ var g = &grammar{
 																											pos: position{line: 749, col: 8, offset: 23978},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1854,
+																												run: (*parser).callonListContinuationElement1857,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37957,7 +37990,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1857,
+																													run: (*parser).callonListContinuationElement1860,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37995,7 +38028,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24364},
-																								run: (*parser).callonListContinuationElement1864,
+																								run: (*parser).callonListContinuationElement1867,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24364},
 																									exprs: []interface{}{
@@ -38010,7 +38043,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24500},
-																												run: (*parser).callonListContinuationElement1868,
+																												run: (*parser).callonListContinuationElement1871,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24501},
 																													expr: &charClassMatcher{
@@ -38027,7 +38060,7 @@ var g = &grammar{
 																											pos: position{line: 760, col: 52, offset: 24390},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1872,
+																												run: (*parser).callonListContinuationElement1875,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38042,7 +38075,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1875,
+																													run: (*parser).callonListContinuationElement1878,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38080,7 +38113,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24123},
-																								run: (*parser).callonListContinuationElement1882,
+																								run: (*parser).callonListContinuationElement1885,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24123},
 																									exprs: []interface{}{
@@ -38089,7 +38122,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24134},
-																												run: (*parser).callonListContinuationElement1885,
+																												run: (*parser).callonListContinuationElement1888,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24134},
 																													exprs: []interface{}{
@@ -38116,7 +38149,7 @@ var g = &grammar{
 																											pos: position{line: 756, col: 8, offset: 24224},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1891,
+																												run: (*parser).callonListContinuationElement1894,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38131,7 +38164,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1894,
+																													run: (*parser).callonListContinuationElement1897,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38169,7 +38202,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24660},
-																								run: (*parser).callonListContinuationElement1901,
+																								run: (*parser).callonListContinuationElement1904,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24660},
 																									exprs: []interface{}{
@@ -38178,7 +38211,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24671},
-																												run: (*parser).callonListContinuationElement1904,
+																												run: (*parser).callonListContinuationElement1907,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24671},
 																													exprs: []interface{}{
@@ -38205,7 +38238,7 @@ var g = &grammar{
 																											pos: position{line: 771, col: 8, offset: 24762},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1910,
+																												run: (*parser).callonListContinuationElement1913,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38220,7 +38253,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1913,
+																													run: (*parser).callonListContinuationElement1916,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38258,7 +38291,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25136},
-																								run: (*parser).callonListContinuationElement1920,
+																								run: (*parser).callonListContinuationElement1923,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25136},
 																									exprs: []interface{}{
@@ -38267,7 +38300,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25147},
-																												run: (*parser).callonListContinuationElement1923,
+																												run: (*parser).callonListContinuationElement1926,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25147},
 																													exprs: []interface{}{
@@ -38294,7 +38327,7 @@ var g = &grammar{
 																											pos: position{line: 785, col: 8, offset: 25238},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1929,
+																												run: (*parser).callonListContinuationElement1932,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38309,7 +38342,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1932,
+																													run: (*parser).callonListContinuationElement1935,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38347,7 +38380,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25388},
-																								run: (*parser).callonListContinuationElement1939,
+																								run: (*parser).callonListContinuationElement1942,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25388},
 																									exprs: []interface{}{
@@ -38356,7 +38389,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25399},
-																												run: (*parser).callonListContinuationElement1942,
+																												run: (*parser).callonListContinuationElement1945,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25399},
 																													exprs: []interface{}{
@@ -38383,7 +38416,7 @@ var g = &grammar{
 																											pos: position{line: 792, col: 8, offset: 25490},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1948,
+																												run: (*parser).callonListContinuationElement1951,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38398,7 +38431,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1951,
+																													run: (*parser).callonListContinuationElement1954,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38436,7 +38469,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25638},
-																								run: (*parser).callonListContinuationElement1958,
+																								run: (*parser).callonListContinuationElement1961,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25638},
 																									exprs: []interface{}{
@@ -38445,7 +38478,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25649},
-																												run: (*parser).callonListContinuationElement1961,
+																												run: (*parser).callonListContinuationElement1964,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25649},
 																													exprs: []interface{}{
@@ -38472,7 +38505,7 @@ var g = &grammar{
 																											pos: position{line: 799, col: 8, offset: 25740},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1967,
+																												run: (*parser).callonListContinuationElement1970,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38487,7 +38520,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1970,
+																													run: (*parser).callonListContinuationElement1973,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38525,7 +38558,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25884},
-																								run: (*parser).callonListContinuationElement1977,
+																								run: (*parser).callonListContinuationElement1980,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25884},
 																									exprs: []interface{}{
@@ -38534,7 +38567,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25895},
-																												run: (*parser).callonListContinuationElement1980,
+																												run: (*parser).callonListContinuationElement1983,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25895},
 																													exprs: []interface{}{
@@ -38561,7 +38594,7 @@ var g = &grammar{
 																											pos: position{line: 806, col: 8, offset: 25986},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1986,
+																												run: (*parser).callonListContinuationElement1989,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38576,7 +38609,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1989,
+																													run: (*parser).callonListContinuationElement1992,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38624,7 +38657,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2825, col: 14, offset: 89571},
-																		run: (*parser).callonListContinuationElement1997,
+																		run: (*parser).callonListContinuationElement2000,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
 																			expr: &charClassMatcher{
@@ -38642,7 +38675,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement2001,
+																			run: (*parser).callonListContinuationElement2004,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -40032,29 +40065,40 @@ var g = &grammar{
 																},
 															},
 														},
-														&actionExpr{
-															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonShortcutParagraph271,
-															expr: &choiceExpr{
-																pos: position{line: 2884, col: 13, offset: 91150},
-																alternatives: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91150},
-																		val:        "\n",
-																		ignoreCase: false,
-																		want:       "\"\\n\"",
-																	},
-																	&litMatcher{
-																		pos:        position{line: 2884, col: 20, offset: 91157},
-																		val:        "\r\n",
-																		ignoreCase: false,
-																		want:       "\"\\r\\n\"",
+														&choiceExpr{
+															pos: position{line: 2897, col: 8, offset: 91376},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2884, col: 12, offset: 91149},
+																	run: (*parser).callonShortcutParagraph272,
+																	expr: &choiceExpr{
+																		pos: position{line: 2884, col: 13, offset: 91150},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2884, col: 13, offset: 91150},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2884, col: 20, offset: 91157},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2884, col: 29, offset: 91166},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
 																	},
-																	&litMatcher{
-																		pos:        position{line: 2884, col: 29, offset: 91166},
-																		val:        "\r",
-																		ignoreCase: false,
-																		want:       "\"\\r\"",
+																},
+																&notExpr{
+																	pos: position{line: 2894, col: 8, offset: 91326},
+																	expr: &anyMatcher{
+																		line: 2894, col: 9, offset: 91327,
 																	},
 																},
 															},
@@ -40070,7 +40114,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2482, col: 22, offset: 79892},
-															run: (*parser).callonShortcutParagraph278,
+															run: (*parser).callonShortcutParagraph281,
 															expr: &seqExpr{
 																pos: position{line: 2482, col: 22, offset: 79892},
 																exprs: []interface{}{
@@ -40094,7 +40138,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2821, col: 13, offset: 89504},
-																			run: (*parser).callonShortcutParagraph284,
+																			run: (*parser).callonShortcutParagraph287,
 																			expr: &zeroOrMoreExpr{
 																				pos: position{line: 2821, col: 13, offset: 89504},
 																				expr: &charClassMatcher{
@@ -40112,7 +40156,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonShortcutParagraph288,
+																				run: (*parser).callonShortcutParagraph291,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -40150,7 +40194,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1786, col: 5, offset: 57743},
-															run: (*parser).callonShortcutParagraph295,
+															run: (*parser).callonShortcutParagraph298,
 															expr: &seqExpr{
 																pos: position{line: 1786, col: 5, offset: 57743},
 																exprs: []interface{}{
@@ -40159,7 +40203,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
-																			run: (*parser).callonShortcutParagraph298,
+																			run: (*parser).callonShortcutParagraph301,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 2825, col: 14, offset: 89571},
 																				expr: &charClassMatcher{
@@ -40174,14 +40218,14 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1787, col: 5, offset: 57767},
-																		run: (*parser).callonShortcutParagraph301,
+																		run: (*parser).callonShortcutParagraph304,
 																	},
 																	&choiceExpr{
 																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonShortcutParagraph303,
+																				run: (*parser).callonShortcutParagraph306,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -63821,56 +63865,56 @@ func (p *parser) callonExtraListElement526() (interface{}, error) {
 	return p.cur.onExtraListElement526()
 }
 
-func (c *current) onExtraListElement528() (interface{}, error) {
+func (c *current) onExtraListElement529() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement528() (interface{}, error) {
+func (p *parser) callonExtraListElement529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement528()
+	return p.cur.onExtraListElement529()
 }
 
-func (c *current) onExtraListElement537() (interface{}, error) {
+func (c *current) onExtraListElement540() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement537() (interface{}, error) {
+func (p *parser) callonExtraListElement540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement537()
+	return p.cur.onExtraListElement540()
 }
 
-func (c *current) onExtraListElement544() (interface{}, error) {
+func (c *current) onExtraListElement547() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement544() (interface{}, error) {
+func (p *parser) callonExtraListElement547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement544()
+	return p.cur.onExtraListElement547()
 }
 
-func (c *current) onExtraListElement547(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement550(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement547() (bool, error) {
+func (p *parser) callonExtraListElement550() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement547(stack["depth"])
+	return p.cur.onExtraListElement550(stack["depth"])
 }
 
-func (c *current) onExtraListElement541(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement544(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -63886,733 +63930,733 @@ func (c *current) onExtraListElement541(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement541() (interface{}, error) {
+func (p *parser) callonExtraListElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement541(stack["depth"])
+	return p.cur.onExtraListElement544(stack["depth"])
 }
 
-func (c *current) onExtraListElement548() (interface{}, error) {
+func (c *current) onExtraListElement551() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement548() (interface{}, error) {
+func (p *parser) callonExtraListElement551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement548()
+	return p.cur.onExtraListElement551()
 }
 
-func (c *current) onExtraListElement553() (interface{}, error) {
+func (c *current) onExtraListElement556() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement553() (interface{}, error) {
+func (p *parser) callonExtraListElement556() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement553()
+	return p.cur.onExtraListElement556()
 }
 
-func (c *current) onExtraListElement557() (interface{}, error) {
+func (c *current) onExtraListElement560() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement557() (interface{}, error) {
+func (p *parser) callonExtraListElement560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement557()
+	return p.cur.onExtraListElement560()
 }
 
-func (c *current) onExtraListElement561() (interface{}, error) {
+func (c *current) onExtraListElement564() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement561() (interface{}, error) {
+func (p *parser) callonExtraListElement564() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement561()
+	return p.cur.onExtraListElement564()
 }
 
-func (c *current) onExtraListElement566() (interface{}, error) {
+func (c *current) onExtraListElement569() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement566() (interface{}, error) {
+func (p *parser) callonExtraListElement569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement566()
+	return p.cur.onExtraListElement569()
 }
 
-func (c *current) onExtraListElement571(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement574(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement571() (interface{}, error) {
+func (p *parser) callonExtraListElement574() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement571(stack["prefix"])
+	return p.cur.onExtraListElement574(stack["prefix"])
 }
 
-func (c *current) onExtraListElement534(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement537(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement534() (interface{}, error) {
+func (p *parser) callonExtraListElement537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement534(stack["prefix"])
+	return p.cur.onExtraListElement537(stack["prefix"])
 }
 
-func (c *current) onExtraListElement578() (interface{}, error) {
+func (c *current) onExtraListElement581() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement578() (interface{}, error) {
+func (p *parser) callonExtraListElement581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement578()
+	return p.cur.onExtraListElement581()
 }
 
-func (c *current) onExtraListElement581() (interface{}, error) {
+func (c *current) onExtraListElement584() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement581() (interface{}, error) {
+func (p *parser) callonExtraListElement584() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement581()
+	return p.cur.onExtraListElement584()
 }
 
-func (c *current) onExtraListElement586(style interface{}) (bool, error) {
+func (c *current) onExtraListElement589(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement586() (bool, error) {
+func (p *parser) callonExtraListElement589() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement586(stack["style"])
+	return p.cur.onExtraListElement589(stack["style"])
 }
 
-func (c *current) onExtraListElement587(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement590(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement587() (interface{}, error) {
+func (p *parser) callonExtraListElement590() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement587(stack["style"])
+	return p.cur.onExtraListElement590(stack["style"])
 }
 
-func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement578(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement575() (interface{}, error) {
+func (p *parser) callonExtraListElement578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement575(stack["style"])
+	return p.cur.onExtraListElement578(stack["style"])
 }
 
-func (c *current) onExtraListElement595() (interface{}, error) {
+func (c *current) onExtraListElement598() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement595() (interface{}, error) {
+func (p *parser) callonExtraListElement598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement595()
+	return p.cur.onExtraListElement598()
 }
 
-func (c *current) onExtraListElement599(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement602(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement599() (interface{}, error) {
+func (p *parser) callonExtraListElement602() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement599(stack["ref"])
+	return p.cur.onExtraListElement602(stack["ref"])
 }
 
-func (c *current) onExtraListElement591(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement594(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement591() (interface{}, error) {
+func (p *parser) callonExtraListElement594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement591(stack["ref"])
+	return p.cur.onExtraListElement594(stack["ref"])
 }
 
-func (c *current) onExtraListElement617() (interface{}, error) {
+func (c *current) onExtraListElement620() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement617() (interface{}, error) {
+func (p *parser) callonExtraListElement620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement617()
+	return p.cur.onExtraListElement620()
 }
 
-func (c *current) onExtraListElement620(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement623(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement620() (bool, error) {
+func (p *parser) callonExtraListElement623() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement620(stack["separator"])
+	return p.cur.onExtraListElement623(stack["separator"])
 }
 
-func (c *current) onExtraListElement614(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement617(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement614() (interface{}, error) {
+func (p *parser) callonExtraListElement617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement614(stack["separator"])
+	return p.cur.onExtraListElement617(stack["separator"])
 }
 
-func (c *current) onExtraListElement623() (interface{}, error) {
+func (c *current) onExtraListElement626() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement623() (interface{}, error) {
+func (p *parser) callonExtraListElement626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement623()
+	return p.cur.onExtraListElement626()
 }
 
-func (c *current) onExtraListElement604() (interface{}, error) {
+func (c *current) onExtraListElement607() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement604() (interface{}, error) {
+func (p *parser) callonExtraListElement607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement604()
+	return p.cur.onExtraListElement607()
 }
 
-func (c *current) onExtraListElement634() (interface{}, error) {
+func (c *current) onExtraListElement637() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement634() (interface{}, error) {
+func (p *parser) callonExtraListElement637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement634()
+	return p.cur.onExtraListElement637()
 }
 
-func (c *current) onExtraListElement637(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement640(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement637() (bool, error) {
+func (p *parser) callonExtraListElement640() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement637(stack["separator"])
+	return p.cur.onExtraListElement640(stack["separator"])
 }
 
-func (c *current) onExtraListElement631(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement634(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement631() (interface{}, error) {
+func (p *parser) callonExtraListElement634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement631(stack["separator"])
+	return p.cur.onExtraListElement634(stack["separator"])
 }
 
-func (c *current) onExtraListElement648() (interface{}, error) {
+func (c *current) onExtraListElement651() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement648() (interface{}, error) {
+func (p *parser) callonExtraListElement651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement648()
+	return p.cur.onExtraListElement651()
 }
 
-func (c *current) onExtraListElement654() (interface{}, error) {
+func (c *current) onExtraListElement657() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement654() (interface{}, error) {
+func (p *parser) callonExtraListElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement654()
+	return p.cur.onExtraListElement657()
 }
 
-func (c *current) onExtraListElement657() (interface{}, error) {
+func (c *current) onExtraListElement660() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement657() (interface{}, error) {
+func (p *parser) callonExtraListElement660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement657()
+	return p.cur.onExtraListElement660()
 }
 
-func (c *current) onExtraListElement645(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement648(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement645() (interface{}, error) {
+func (p *parser) callonExtraListElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement645(stack["delimiter"])
+	return p.cur.onExtraListElement648(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement667() (interface{}, error) {
+func (c *current) onExtraListElement670() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement667() (interface{}, error) {
+func (p *parser) callonExtraListElement670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement667()
+	return p.cur.onExtraListElement670()
 }
 
-func (c *current) onExtraListElement673() (interface{}, error) {
+func (c *current) onExtraListElement676() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement673() (interface{}, error) {
+func (p *parser) callonExtraListElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement673()
+	return p.cur.onExtraListElement676()
 }
 
-func (c *current) onExtraListElement676() (interface{}, error) {
+func (c *current) onExtraListElement679() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement676() (interface{}, error) {
+func (p *parser) callonExtraListElement679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement676()
+	return p.cur.onExtraListElement679()
 }
 
-func (c *current) onExtraListElement664(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement667(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement664() (interface{}, error) {
+func (p *parser) callonExtraListElement667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement664(stack["delimiter"])
+	return p.cur.onExtraListElement667(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement687() (interface{}, error) {
+func (c *current) onExtraListElement690() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement687() (interface{}, error) {
+func (p *parser) callonExtraListElement690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement687()
+	return p.cur.onExtraListElement690()
 }
 
-func (c *current) onExtraListElement691() (interface{}, error) {
+func (c *current) onExtraListElement694() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement691() (interface{}, error) {
+func (p *parser) callonExtraListElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement691()
+	return p.cur.onExtraListElement694()
 }
 
-func (c *current) onExtraListElement694() (interface{}, error) {
+func (c *current) onExtraListElement697() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement694() (interface{}, error) {
+func (p *parser) callonExtraListElement697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement694()
+	return p.cur.onExtraListElement697()
 }
 
-func (c *current) onExtraListElement683(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement686(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683(stack["language"])
+	return p.cur.onExtraListElement686(stack["language"])
 }
 
-func (c *current) onExtraListElement704() (interface{}, error) {
+func (c *current) onExtraListElement707() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement704() (interface{}, error) {
+func (p *parser) callonExtraListElement707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement704()
+	return p.cur.onExtraListElement707()
 }
 
-func (c *current) onExtraListElement710() (interface{}, error) {
+func (c *current) onExtraListElement713() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement710() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement710()
+	return p.cur.onExtraListElement713()
 }
 
-func (c *current) onExtraListElement713() (interface{}, error) {
+func (c *current) onExtraListElement716() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement713() (interface{}, error) {
+func (p *parser) callonExtraListElement716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement713()
+	return p.cur.onExtraListElement716()
 }
 
-func (c *current) onExtraListElement701(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement704(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement701() (interface{}, error) {
+func (p *parser) callonExtraListElement704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement701(stack["delimiter"])
+	return p.cur.onExtraListElement704(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement723() (interface{}, error) {
+func (c *current) onExtraListElement726() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement723() (interface{}, error) {
+func (p *parser) callonExtraListElement726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement723()
+	return p.cur.onExtraListElement726()
 }
 
-func (c *current) onExtraListElement729() (interface{}, error) {
+func (c *current) onExtraListElement732() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement729() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement729()
+	return p.cur.onExtraListElement732()
 }
 
-func (c *current) onExtraListElement732() (interface{}, error) {
+func (c *current) onExtraListElement735() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement732() (interface{}, error) {
+func (p *parser) callonExtraListElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement732()
+	return p.cur.onExtraListElement735()
 }
 
-func (c *current) onExtraListElement720(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement723(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement720() (interface{}, error) {
+func (p *parser) callonExtraListElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement720(stack["delimiter"])
+	return p.cur.onExtraListElement723(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement742() (interface{}, error) {
+func (c *current) onExtraListElement745() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement742() (interface{}, error) {
+func (p *parser) callonExtraListElement745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement742()
+	return p.cur.onExtraListElement745()
 }
 
-func (c *current) onExtraListElement748() (interface{}, error) {
+func (c *current) onExtraListElement751() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement748() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement748()
+	return p.cur.onExtraListElement751()
 }
 
-func (c *current) onExtraListElement751() (interface{}, error) {
+func (c *current) onExtraListElement754() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement751() (interface{}, error) {
+func (p *parser) callonExtraListElement754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement751()
+	return p.cur.onExtraListElement754()
 }
 
-func (c *current) onExtraListElement739(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement742(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement739() (interface{}, error) {
+func (p *parser) callonExtraListElement742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement739(stack["delimiter"])
+	return p.cur.onExtraListElement742(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement761() (interface{}, error) {
+func (c *current) onExtraListElement764() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement761() (interface{}, error) {
+func (p *parser) callonExtraListElement764() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement761()
+	return p.cur.onExtraListElement764()
 }
 
-func (c *current) onExtraListElement767() (interface{}, error) {
+func (c *current) onExtraListElement770() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement767() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement767()
+	return p.cur.onExtraListElement770()
 }
 
-func (c *current) onExtraListElement770() (interface{}, error) {
+func (c *current) onExtraListElement773() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement770() (interface{}, error) {
+func (p *parser) callonExtraListElement773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement770()
+	return p.cur.onExtraListElement773()
 }
 
-func (c *current) onExtraListElement758(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement761(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement758() (interface{}, error) {
+func (p *parser) callonExtraListElement761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement758(stack["delimiter"])
+	return p.cur.onExtraListElement761(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement780() (interface{}, error) {
+func (c *current) onExtraListElement783() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement780() (interface{}, error) {
+func (p *parser) callonExtraListElement783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement780()
+	return p.cur.onExtraListElement783()
 }
 
-func (c *current) onExtraListElement786() (interface{}, error) {
+func (c *current) onExtraListElement789() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement786() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement786()
+	return p.cur.onExtraListElement789()
 }
 
-func (c *current) onExtraListElement789() (interface{}, error) {
+func (c *current) onExtraListElement792() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement789() (interface{}, error) {
+func (p *parser) callonExtraListElement792() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement789()
+	return p.cur.onExtraListElement792()
 }
 
-func (c *current) onExtraListElement777(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement780(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement777() (interface{}, error) {
+func (p *parser) callonExtraListElement780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement777(stack["delimiter"])
+	return p.cur.onExtraListElement780(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement799() (interface{}, error) {
+func (c *current) onExtraListElement802() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement799() (interface{}, error) {
+func (p *parser) callonExtraListElement802() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement799()
+	return p.cur.onExtraListElement802()
 }
 
-func (c *current) onExtraListElement805() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement805() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement805()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement808() (interface{}, error) {
+func (c *current) onExtraListElement811() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement808() (interface{}, error) {
+func (p *parser) callonExtraListElement811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement808()
+	return p.cur.onExtraListElement811()
 }
 
-func (c *current) onExtraListElement796(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement799(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement796() (interface{}, error) {
+func (p *parser) callonExtraListElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement796(stack["delimiter"])
+	return p.cur.onExtraListElement799(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement639(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement642(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement639() (interface{}, error) {
+func (p *parser) callonExtraListElement642() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement639(stack["delimiter"])
+	return p.cur.onExtraListElement642(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement816() (interface{}, error) {
+func (c *current) onExtraListElement819() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement816() (interface{}, error) {
+func (p *parser) callonExtraListElement819() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement816()
+	return p.cur.onExtraListElement819()
 }
 
-func (c *current) onExtraListElement820() (interface{}, error) {
+func (c *current) onExtraListElement823() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement820() (interface{}, error) {
+func (p *parser) callonExtraListElement823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement820()
+	return p.cur.onExtraListElement823()
 }
 
 func (c *current) onExtraListElement504(content interface{}) (interface{}, error) {
@@ -64673,15 +64717,15 @@ func (p *parser) callonListContinuation16() (interface{}, error) {
 	return p.cur.onListContinuation16()
 }
 
-func (c *current) onListContinuation18(offset interface{}) (interface{}, error) {
+func (c *current) onListContinuation19() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuation18() (interface{}, error) {
+func (p *parser) callonListContinuation19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuation18(stack["offset"])
+	return p.cur.onListContinuation19()
 }
 
 func (c *current) onListContinuation1(offset, element interface{}) (interface{}, error) {
@@ -68613,56 +68657,56 @@ func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1710() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1710()
 }
 
-func (c *current) onListContinuationElement1718() (interface{}, error) {
+func (c *current) onListContinuationElement1721() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1718() (interface{}, error) {
+func (p *parser) callonListContinuationElement1721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1718()
+	return p.cur.onListContinuationElement1721()
 }
 
-func (c *current) onListContinuationElement1725() (interface{}, error) {
+func (c *current) onListContinuationElement1728() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725()
+	return p.cur.onListContinuationElement1728()
 }
 
-func (c *current) onListContinuationElement1728(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1731(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (bool, error) {
+func (p *parser) callonListContinuationElement1731() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728(stack["depth"])
+	return p.cur.onListContinuationElement1731(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1722(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1725(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -68678,733 +68722,733 @@ func (c *current) onListContinuationElement1722(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1722() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1722(stack["depth"])
+	return p.cur.onListContinuationElement1725(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1729() (interface{}, error) {
+func (c *current) onListContinuationElement1732() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729()
+	return p.cur.onListContinuationElement1732()
 }
 
-func (c *current) onListContinuationElement1734() (interface{}, error) {
+func (c *current) onListContinuationElement1737() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1734() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734()
+	return p.cur.onListContinuationElement1737()
 }
 
-func (c *current) onListContinuationElement1738() (interface{}, error) {
+func (c *current) onListContinuationElement1741() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1738() (interface{}, error) {
+func (p *parser) callonListContinuationElement1741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1738()
+	return p.cur.onListContinuationElement1741()
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1747() (interface{}, error) {
+func (c *current) onListContinuationElement1750() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1747() (interface{}, error) {
+func (p *parser) callonListContinuationElement1750() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1747()
+	return p.cur.onListContinuationElement1750()
 }
 
-func (c *current) onListContinuationElement1752(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1755(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1752() (interface{}, error) {
+func (p *parser) callonListContinuationElement1755() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1752(stack["prefix"])
+	return p.cur.onListContinuationElement1755(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1715(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1718(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1715() (interface{}, error) {
+func (p *parser) callonListContinuationElement1718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1715(stack["prefix"])
+	return p.cur.onListContinuationElement1718(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1759() (interface{}, error) {
+func (c *current) onListContinuationElement1762() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1759() (interface{}, error) {
+func (p *parser) callonListContinuationElement1762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1759()
+	return p.cur.onListContinuationElement1762()
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1765() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1765()
 }
 
-func (c *current) onListContinuationElement1767(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1770(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1767() (bool, error) {
+func (p *parser) callonListContinuationElement1770() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767(stack["style"])
+	return p.cur.onListContinuationElement1770(stack["style"])
 }
 
-func (c *current) onListContinuationElement1768(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1771(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1768() (interface{}, error) {
+func (p *parser) callonListContinuationElement1771() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1768(stack["style"])
+	return p.cur.onListContinuationElement1771(stack["style"])
 }
 
-func (c *current) onListContinuationElement1756(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1759(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1756() (interface{}, error) {
+func (p *parser) callonListContinuationElement1759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1756(stack["style"])
+	return p.cur.onListContinuationElement1759(stack["style"])
 }
 
-func (c *current) onListContinuationElement1776() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1780(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1783(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1780() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1780(stack["ref"])
+	return p.cur.onListContinuationElement1783(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1772(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1775(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1772() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1772(stack["ref"])
+	return p.cur.onListContinuationElement1775(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1801() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1801()
 }
 
-func (c *current) onListContinuationElement1801(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1804(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1801() (bool, error) {
+func (p *parser) callonListContinuationElement1804() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801(stack["separator"])
+	return p.cur.onListContinuationElement1804(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1795(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1798(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795(stack["separator"])
+	return p.cur.onListContinuationElement1798(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1807() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1807()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1788() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1788()
 }
 
-func (c *current) onListContinuationElement1815() (interface{}, error) {
+func (c *current) onListContinuationElement1818() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1815() (interface{}, error) {
+func (p *parser) callonListContinuationElement1818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1815()
+	return p.cur.onListContinuationElement1818()
 }
 
-func (c *current) onListContinuationElement1818(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1821(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1818() (bool, error) {
+func (p *parser) callonListContinuationElement1821() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1818(stack["separator"])
+	return p.cur.onListContinuationElement1821(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1812(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1815(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1812() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1812(stack["separator"])
+	return p.cur.onListContinuationElement1815(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1829() (interface{}, error) {
+func (c *current) onListContinuationElement1832() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1829() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1829()
+	return p.cur.onListContinuationElement1832()
 }
 
-func (c *current) onListContinuationElement1835() (interface{}, error) {
+func (c *current) onListContinuationElement1838() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1835() (interface{}, error) {
+func (p *parser) callonListContinuationElement1838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1835()
+	return p.cur.onListContinuationElement1838()
 }
 
-func (c *current) onListContinuationElement1838() (interface{}, error) {
+func (c *current) onListContinuationElement1841() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1838() (interface{}, error) {
+func (p *parser) callonListContinuationElement1841() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1838()
+	return p.cur.onListContinuationElement1841()
 }
 
-func (c *current) onListContinuationElement1826(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1829(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826(stack["delimiter"])
+	return p.cur.onListContinuationElement1829(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1848() (interface{}, error) {
+func (c *current) onListContinuationElement1851() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848()
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1854() (interface{}, error) {
+func (c *current) onListContinuationElement1857() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1854() (interface{}, error) {
+func (p *parser) callonListContinuationElement1857() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1854()
+	return p.cur.onListContinuationElement1857()
 }
 
-func (c *current) onListContinuationElement1857() (interface{}, error) {
+func (c *current) onListContinuationElement1860() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1857() (interface{}, error) {
+func (p *parser) callonListContinuationElement1860() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1857()
+	return p.cur.onListContinuationElement1860()
 }
 
-func (c *current) onListContinuationElement1845(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1848(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845(stack["delimiter"])
+	return p.cur.onListContinuationElement1848(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1868() (interface{}, error) {
+func (c *current) onListContinuationElement1871() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1868() (interface{}, error) {
+func (p *parser) callonListContinuationElement1871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1868()
+	return p.cur.onListContinuationElement1871()
 }
 
-func (c *current) onListContinuationElement1872() (interface{}, error) {
+func (c *current) onListContinuationElement1875() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1872() (interface{}, error) {
+func (p *parser) callonListContinuationElement1875() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1872()
+	return p.cur.onListContinuationElement1875()
 }
 
-func (c *current) onListContinuationElement1875() (interface{}, error) {
+func (c *current) onListContinuationElement1878() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1875() (interface{}, error) {
+func (p *parser) callonListContinuationElement1878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1875()
+	return p.cur.onListContinuationElement1878()
 }
 
-func (c *current) onListContinuationElement1864(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1867(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864(stack["language"])
+	return p.cur.onListContinuationElement1867(stack["language"])
 }
 
-func (c *current) onListContinuationElement1885() (interface{}, error) {
+func (c *current) onListContinuationElement1888() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1885() (interface{}, error) {
+func (p *parser) callonListContinuationElement1888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1885()
+	return p.cur.onListContinuationElement1888()
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1894() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1894()
 }
 
-func (c *current) onListContinuationElement1894() (interface{}, error) {
+func (c *current) onListContinuationElement1897() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1894() (interface{}, error) {
+func (p *parser) callonListContinuationElement1897() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1894()
+	return p.cur.onListContinuationElement1897()
 }
 
-func (c *current) onListContinuationElement1882(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1885(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1882() (interface{}, error) {
+func (p *parser) callonListContinuationElement1885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1882(stack["delimiter"])
+	return p.cur.onListContinuationElement1885(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1904() (interface{}, error) {
+func (c *current) onListContinuationElement1907() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904()
+	return p.cur.onListContinuationElement1907()
 }
 
-func (c *current) onListContinuationElement1910() (interface{}, error) {
+func (c *current) onListContinuationElement1913() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1910() (interface{}, error) {
+func (p *parser) callonListContinuationElement1913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1910()
+	return p.cur.onListContinuationElement1913()
 }
 
-func (c *current) onListContinuationElement1913() (interface{}, error) {
+func (c *current) onListContinuationElement1916() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1913() (interface{}, error) {
+func (p *parser) callonListContinuationElement1916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1913()
+	return p.cur.onListContinuationElement1916()
 }
 
-func (c *current) onListContinuationElement1901(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1904(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1901() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1901(stack["delimiter"])
+	return p.cur.onListContinuationElement1904(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1923() (interface{}, error) {
+func (c *current) onListContinuationElement1926() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1923() (interface{}, error) {
+func (p *parser) callonListContinuationElement1926() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1923()
+	return p.cur.onListContinuationElement1926()
 }
 
-func (c *current) onListContinuationElement1929() (interface{}, error) {
+func (c *current) onListContinuationElement1932() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1929() (interface{}, error) {
+func (p *parser) callonListContinuationElement1932() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1929()
+	return p.cur.onListContinuationElement1932()
 }
 
-func (c *current) onListContinuationElement1932() (interface{}, error) {
+func (c *current) onListContinuationElement1935() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1932() (interface{}, error) {
+func (p *parser) callonListContinuationElement1935() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1932()
+	return p.cur.onListContinuationElement1935()
 }
 
-func (c *current) onListContinuationElement1920(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1923(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1920() (interface{}, error) {
+func (p *parser) callonListContinuationElement1923() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1920(stack["delimiter"])
+	return p.cur.onListContinuationElement1923(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1942() (interface{}, error) {
+func (c *current) onListContinuationElement1945() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1942() (interface{}, error) {
+func (p *parser) callonListContinuationElement1945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1942()
+	return p.cur.onListContinuationElement1945()
 }
 
-func (c *current) onListContinuationElement1948() (interface{}, error) {
+func (c *current) onListContinuationElement1951() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1948() (interface{}, error) {
+func (p *parser) callonListContinuationElement1951() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1948()
+	return p.cur.onListContinuationElement1951()
 }
 
-func (c *current) onListContinuationElement1951() (interface{}, error) {
+func (c *current) onListContinuationElement1954() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1951() (interface{}, error) {
+func (p *parser) callonListContinuationElement1954() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1951()
+	return p.cur.onListContinuationElement1954()
 }
 
-func (c *current) onListContinuationElement1939(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1942(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1939() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1939(stack["delimiter"])
+	return p.cur.onListContinuationElement1942(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1961() (interface{}, error) {
+func (c *current) onListContinuationElement1964() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1961() (interface{}, error) {
+func (p *parser) callonListContinuationElement1964() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1961()
+	return p.cur.onListContinuationElement1964()
 }
 
-func (c *current) onListContinuationElement1967() (interface{}, error) {
+func (c *current) onListContinuationElement1970() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1967() (interface{}, error) {
+func (p *parser) callonListContinuationElement1970() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1967()
+	return p.cur.onListContinuationElement1970()
 }
 
-func (c *current) onListContinuationElement1970() (interface{}, error) {
+func (c *current) onListContinuationElement1973() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1970() (interface{}, error) {
+func (p *parser) callonListContinuationElement1973() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1970()
+	return p.cur.onListContinuationElement1973()
 }
 
-func (c *current) onListContinuationElement1958(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1961(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1958() (interface{}, error) {
+func (p *parser) callonListContinuationElement1961() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1958(stack["delimiter"])
+	return p.cur.onListContinuationElement1961(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1980() (interface{}, error) {
+func (c *current) onListContinuationElement1983() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1980() (interface{}, error) {
+func (p *parser) callonListContinuationElement1983() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1980()
+	return p.cur.onListContinuationElement1983()
 }
 
-func (c *current) onListContinuationElement1986() (interface{}, error) {
+func (c *current) onListContinuationElement1989() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1986() (interface{}, error) {
+func (p *parser) callonListContinuationElement1989() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1986()
+	return p.cur.onListContinuationElement1989()
 }
 
-func (c *current) onListContinuationElement1989() (interface{}, error) {
+func (c *current) onListContinuationElement1992() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1989() (interface{}, error) {
+func (p *parser) callonListContinuationElement1992() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1989()
+	return p.cur.onListContinuationElement1992()
 }
 
-func (c *current) onListContinuationElement1977(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1980(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1977() (interface{}, error) {
+func (p *parser) callonListContinuationElement1980() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1977(stack["delimiter"])
+	return p.cur.onListContinuationElement1980(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1820(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820(stack["delimiter"])
+	return p.cur.onListContinuationElement1823(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1997() (interface{}, error) {
+func (c *current) onListContinuationElement2000() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1997() (interface{}, error) {
+func (p *parser) callonListContinuationElement2000() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1997()
+	return p.cur.onListContinuationElement2000()
 }
 
-func (c *current) onListContinuationElement2001() (interface{}, error) {
+func (c *current) onListContinuationElement2004() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement2001() (interface{}, error) {
+func (p *parser) callonListContinuationElement2004() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2001()
+	return p.cur.onListContinuationElement2004()
 }
 
 func (c *current) onListContinuationElement1685(content interface{}) (interface{}, error) {
@@ -70173,94 +70217,94 @@ func (p *parser) callonShortcutParagraph269() (interface{}, error) {
 	return p.cur.onShortcutParagraph269()
 }
 
-func (c *current) onShortcutParagraph271() (interface{}, error) {
+func (c *current) onShortcutParagraph272() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph271() (interface{}, error) {
+func (p *parser) callonShortcutParagraph272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph271()
+	return p.cur.onShortcutParagraph272()
 }
 
-func (c *current) onShortcutParagraph284() (interface{}, error) {
+func (c *current) onShortcutParagraph287() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph284() (interface{}, error) {
+func (p *parser) callonShortcutParagraph287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph284()
+	return p.cur.onShortcutParagraph287()
 }
 
-func (c *current) onShortcutParagraph288() (interface{}, error) {
+func (c *current) onShortcutParagraph291() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph288() (interface{}, error) {
+func (p *parser) callonShortcutParagraph291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288()
+	return p.cur.onShortcutParagraph291()
 }
 
-func (c *current) onShortcutParagraph278(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph281(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph278() (interface{}, error) {
+func (p *parser) callonShortcutParagraph281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph278(stack["content"])
+	return p.cur.onShortcutParagraph281(stack["content"])
 }
 
-func (c *current) onShortcutParagraph298() (interface{}, error) {
+func (c *current) onShortcutParagraph301() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph298() (interface{}, error) {
+func (p *parser) callonShortcutParagraph301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph298()
+	return p.cur.onShortcutParagraph301()
 }
 
-func (c *current) onShortcutParagraph301(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph304(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonShortcutParagraph301() (bool, error) {
+func (p *parser) callonShortcutParagraph304() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph301(stack["content"])
+	return p.cur.onShortcutParagraph304(stack["content"])
 }
 
-func (c *current) onShortcutParagraph303() (interface{}, error) {
+func (c *current) onShortcutParagraph306() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph303() (interface{}, error) {
+func (p *parser) callonShortcutParagraph306() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph303()
+	return p.cur.onShortcutParagraph306()
 }
 
-func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph298(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph295() (interface{}, error) {
+func (p *parser) callonShortcutParagraph298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph295(stack["content"])
+	return p.cur.onShortcutParagraph298(stack["content"])
 }
 
 func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f305b69..bb7cab8 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1533,7 +1533,7 @@ ListContinuation <-
         return types.NewListContinuation(len(offset.([]interface{})), element)    
     }
 
-ListContinuationMarker <- "+" Space* Newline
+ListContinuationMarker <- "+" (Space)* (EOL)
 
 ListContinuationElement <- // TODO: same as DelimitedBlockElement?
     NotEOF // quick escapes
-- 
2.43.0


From 65265484a91beef8276514682f85115eadf436fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:47 +0000
Subject: [PATCH 61/76] fix: trim the tabs at the end of lines as the spaces

---
 pkg/renderer/sgml/inline_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/inline_elements.go b/pkg/renderer/sgml/inline_elements.go
index f782c5e..c4f467b 100644
--- a/pkg/renderer/sgml/inline_elements.go
+++ b/pkg/renderer/sgml/inline_elements.go
@@ -20,7 +20,7 @@ func (r *sgmlRenderer) renderInlineElements(ctx *context, elements []interface{}
 		if i == len(elements)-1 {
 			if _, ok := element.(*types.StringElement); ok { // TODO: only for StringElement? or for any kind of element?
 				// trim trailing spaces before returning the line
-				buf.WriteString(strings.TrimRight(string(renderedElement), " "))
+				buf.WriteString(strings.TrimRight(string(renderedElement), " \t"))
 			} else {
 				buf.WriteString(renderedElement)
 			}
-- 
2.43.0


From 6f62744ff80639a428a67b8742470ee81728dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 62/76] fix: the first row of a table followed by a blank line
 is the header, also when there is no other row

---
 pkg/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 299b59d..3e9d888 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3932,7 +3932,7 @@ func NewTable(lines []interface{}) (*Table, error) {
 
 func scanTableElements(rows []interface{}) (*TableRow, []*TableRow) {
 	// check first 2 elements, expecting a row followed by a blankline as the optional header row
-	if len(rows) > 2 {
+	if len(rows) > 1 {
 		if header, ok := rows[0].(*TableRow); ok {
 			if _, ok := rows[1].(*BlankLine); ok {
 				rows := organizeTableCells(rows[2:], len(header.Cells))
-- 
2.43.0


From 0ed5665dd78f356de382e115fd303f7c21e4e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:22 +0000
Subject: [PATCH 63/76] fix: ignore the spaces at the end of lines

---
 pkg/parser/document_preprocessing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index de0c2b4..e396a79 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -39,8 +39,8 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
 		if err != nil {
 			// log.Error(err)
-			// content of line was not relevant in the context of preparsing (ie, it's a regular line), so let's keep it as-is
-			b.Write(line)
+			// content of line was not relevant in the context of preparsing (ie, it's a regular line), so let's keep it as-is (except for its trailing spaces)
+			b.Write(bytes.TrimRight(line, " \t"))
 		} else {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
-- 
2.43.0


From b95d2690d0e5fb16827892b24a5343f8e322bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:23 +0000
Subject: [PATCH 64/76] fix: filter the blank lines and comments out of the
 header and footer of tables, as of the other rows

---
 pkg/parser/document_processing_filter_elements.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/parser/document_processing_filter_elements.go b/pkg/parser/document_processing_filter_elements.go
index bbc695c..6c4d56a 100644
--- a/pkg/parser/document_processing_filter_elements.go
+++ b/pkg/parser/document_processing_filter_elements.go
@@ -68,6 +68,19 @@ elements:
 					return nil, err
 				}
 			}
+		case *types.Table:
+			// the elements of a table are the rows of its body only, but its header and footer may have elements to filter out, too
+			for _, row := range element.AllRows() {
+				for _, cell := range row.Cells {
+					elmts, err := doFilterOut(cell.GetElements(), matchers...)
+					if err != nil {
+						return nil, err
+					}
+					if err := cell.SetElements(elmts); err != nil {
+						return nil, err
+					}
+				}
+			}
 		case types.WithElements:
 			elmts, err := doFilterOut(element.GetElements(), matchers...)
 			if err != nil {
-- 
2.43.0


From 4ba76a569442da4c47de11995068b5510edffc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:18 +0000
Subject: [PATCH 65/76] fix: show the text between lines of three dashes after
 block attributes, which is not a front matter

---
 pkg/parser/document_processing_parse_fragments.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index c90cfea..fc7ad5e 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -112,6 +112,7 @@ func (c *current) storeBlockAttributes(attributes types.Attributes) {
 		log.Debugf("storing block attributes in global store: %s", spew.Sdump(attributes))
 	}
 	c.globalStore[blockAttributesKey] = attributes
+	c.disableFrontMatterRule() // not allowed after attributes
 }
 
 func (c *current) isWithinLiteralParagraph() bool {
-- 
2.43.0


From 68047d1448b764800b93c0b39cb7dd548e2bc408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:54 +0000
Subject: [PATCH 66/76] fix: include the files which have blank lines only, as
 blank lines

---
 pkg/parser/document_preprocessing.go | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index e396a79..3ce7535 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -21,10 +21,12 @@ import (
 // Preprocess reads line by line to look-up and process file inclusions and conditionals (`ifdef`, `ifndef` and `ifeval`)
 func Preprocess(source io.Reader, config *configuration.Configuration, opts ...Option) (string, error) {
 	ctx := NewParseContext(config, opts...) // each pipeline step will have its own clone of `ctx`
-	return preprocess(ctx, source)
+	content, _, err := preprocess(ctx, source)
+	return content, err
 }
 
-func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
+// preprocess returns the content, and whether it has lines (even if there is a single one, which is blank)
+func preprocess(ctx *ParseContext, source io.Reader) (string, bool, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("preprocessing file inclusions in %s with leveloffset=%s", ctx.filename, spew.Sdump(ctx.levelOffsets))
 	}
@@ -59,7 +61,7 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 					// also, replace the references to other attributes
 					v, err := replaceAttributeRefsInValue(ctx, expandAttributeRefs(ctx, e.Value))
 					if err != nil {
-						return "", err
+						return "", false, err
 					}
 					ctx.attributes.set(e.Name, v)
 				}
@@ -74,11 +76,11 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.FileInclusion:
 				includeCtx := ctx.Clone()
 				includeCtx.attributes = ctx.attributes // attributes declared in the included file remain available afterwards
-				f, err := includeFile(includeCtx, e)
+				f, hasLines, err := includeFile(includeCtx, e)
 				if err != nil {
-					return "", err
+					return "", false, err
 				}
-				if f != "" { // no blank line if there is nothing to include
+				if hasLines { // no blank line if there is nothing to include
 					b.WriteString(f)
 				}
 			case *types.BlockDelimiter:
@@ -96,14 +98,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.EndOfCondition:
 				b.enabled = c.pop()
 			default:
-				return "", fmt.Errorf("unexpected type of element while preprocessinh document: '%T'", e)
+				return "", false, fmt.Errorf("unexpected type of element while preprocessinh document: '%T'", e)
 			}
 		}
 	}
 	if err := scanner.Err(); err != nil {
-		return "", errors.Wrap(err, "unable to read the document")
+		return "", false, errors.Wrap(err, "unable to read the document")
 	}
-	return b.String(), nil
+	return b.String(), b.insertLF, nil
 }
 
 // newScanner returns a new scanner of the lines of the given source, whatever their length
@@ -177,25 +179,25 @@ const maxIncludeDepth = 64
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
 // of the inclusion (for example, within a delimited block) is not lost.
-func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
+func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, bool, error) {
 	ctx.includeDepth++
 	if ctx.includeDepth > maxIncludeDepth { // eg: a file which includes itself
-		return "", errors.Errorf("Unresolved directive in %s - %s: maximum include depth of %d exceeded", ctx.filename, incl.RawText, maxIncludeDepth)
+		return "", false, errors.Errorf("Unresolved directive in %s - %s: maximum include depth of %d exceeded", ctx.filename, incl.RawText, maxIncludeDepth)
 	}
 	ctx.opts = append(ctx.opts, GlobalStore(documentHeaderKey, false))
 	if l, ok := incl.GetLocation().Path.([]interface{}); ok {
 		l, err := replaceAttributeRefsInSlicedValue(ctx, l)
 		if err != nil {
-			return "", err
+			return "", false, err
 		}
 		incl.GetLocation().SetPath(l)
 	}
 	content, adoc, err := contentOf(ctx, incl)
 	if err != nil {
-		return "", err
+		return "", false, err
 	}
 	if !adoc {
-		return string(content), nil
+		return content, content != "", nil
 	}
 	ctx.opts = append(ctx.opts, sectionEnabled())
 	return preprocess(ctx, strings.NewReader(content))
-- 
2.43.0


From 730eed9992448897e589d2323c643acb73d062a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:59 +0000
Subject: [PATCH 67/76] fix: the default backend is html5 when none is given

---
 pkg/configuration/configuration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/configuration/configuration.go b/pkg/configuration/configuration.go
index 7909183..24246dc 100644
--- a/pkg/configuration/configuration.go
+++ b/pkg/configuration/configuration.go
@@ -92,6 +92,9 @@ func WithCSS(hrefs []string) Setting {
 
 // WithBackEnd sets the backend format, valid values are "html", "html5", "xhtml", "xhtml5", and "" (defaults to html5)
 func WithBackEnd(backend string) Setting {
+	if backend == "" {
+		backend = "html5"
+	}
 	return func(config *Configuration) {
 		config.Attributes.Set("backend", backend)
 		switch backend {
-- 
2.43.0


From 032ac1230a46475e1b11a9a0c0ee8b0bdddf0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 68/76] fix: the quoted values of attributes may be empty

---
 pkg/parser/document_substitutions.go | 2 +-
 pkg/parser/parser.go                 | 8 ++++----
 pkg/parser/parser.peg                | 8 ++++----
 pkg/renderer/sgml/html5/icon.go      | 2 +-
 pkg/renderer/sgml/xhtml5/icon.go     | 2 +-
 pkg/types/types_utils.go             | 8 ++++++++
 6 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 0b81a25..4a39cfd 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -241,7 +241,7 @@ func substitutionsFor(s string) (*substitutions, error) {
 	switch s {
 	case "normal":
 		return normalSubstitutions(), nil
-	case "none":
+	case "none", "":
 		return noneSubstitutions(), nil
 	case "verbatim":
 		return verbatimSubstitutions(), nil
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 88bb032..ef69f3a 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -13877,7 +13877,7 @@ var g = &grammar{
 				expr: &labeledExpr{
 					pos:   position{line: 571, col: 5, offset: 17639},
 					label: "elements",
-					expr: &oneOrMoreExpr{
+					expr: &zeroOrMoreExpr{
 						pos: position{line: 571, col: 14, offset: 17648},
 						expr: &choiceExpr{
 							pos: position{line: 572, col: 9, offset: 17658},
@@ -14391,7 +14391,7 @@ var g = &grammar{
 				expr: &labeledExpr{
 					pos:   position{line: 597, col: 5, offset: 18490},
 					label: "elements",
-					expr: &oneOrMoreExpr{
+					expr: &zeroOrMoreExpr{
 						pos: position{line: 597, col: 14, offset: 18499},
 						expr: &choiceExpr{
 							pos: position{line: 598, col: 9, offset: 18509},
@@ -56606,7 +56606,7 @@ func (p *parser) callonSingleQuotedAttributeValueContent86() (interface{}, error
 }
 
 func (c *current) onSingleQuotedAttributeValueContent1(elements interface{}) (interface{}, error) {
-	return types.Reduce(elements), nil
+	return types.Quoted(elements), nil
 
 }
 
@@ -56879,7 +56879,7 @@ func (p *parser) callonDoubleQuotedAttributeValueContent87() (interface{}, error
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent1(elements interface{}) (interface{}, error) {
-	return types.Reduce(elements), nil
+	return types.Quoted(elements), nil
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index bb7cab8..134530b 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -582,8 +582,8 @@ SingleQuotedAttributeValueContent <-
         / ([^\r\n\\'' ]+ { // = and , signs are allowed within '' quoted values
             return types.NewStringElement(string(c.text))
         })
-    )+ {
-        return types.Reduce(elements), nil
+    )* {
+        return types.Quoted(elements), nil
     }
 
 DoubleQuotedAttributeValue <- 
@@ -608,8 +608,8 @@ DoubleQuotedAttributeValueContent <-
         / ([^\r\n\\"` ]+ { // = and , signs are allowed within " quoted values
             return types.NewStringElement(string(c.text))
         })
-    )+ {
-        return types.Reduce(elements), nil
+    )* {
+        return types.Quoted(elements), nil
     }
 
 // Unquoted Attribute Value, may include spaces but not on the first position
diff --git a/pkg/renderer/sgml/html5/icon.go b/pkg/renderer/sgml/html5/icon.go
index d9a35a5..c35eeda 100644
--- a/pkg/renderer/sgml/html5/icon.go
+++ b/pkg/renderer/sgml/html5/icon.go
@@ -12,7 +12,7 @@ const (
 		`</span>`
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
diff --git a/pkg/renderer/sgml/xhtml5/icon.go b/pkg/renderer/sgml/xhtml5/icon.go
index d431554..a9202e6 100644
--- a/pkg/renderer/sgml/xhtml5/icon.go
+++ b/pkg/renderer/sgml/xhtml5/icon.go
@@ -9,7 +9,7 @@ const (
 	// Only the img tag needs to be made XHTML safe.
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 71281cb..2e5f2d0 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -131,6 +131,14 @@ func Reduce(elements interface{}, opts ...ReduceOption) interface{} {
 	}
 }
 
+// Quoted returns the value between quotes, which may be empty
+func Quoted(elements interface{}) interface{} {
+	if v := Reduce(elements); v != nil {
+		return v
+	}
+	return ""
+}
+
 // applyFunc a function to apply on the result of the `apply` function below, before returning
 type applyFunc func(s string) string
 
-- 
2.43.0


From 431d3a71baae77fac2dbb7e2ced0cd73a51a6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:23 +0000
Subject: [PATCH 69/76] fix: support the spaces between the substitutions of
 the subs attribute, and the specialcharacters one

---
 pkg/parser/document_substitutions.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 4a39cfd..2a3a64f 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -94,6 +94,9 @@ func newSubstitutions(b types.WithElements) (*substitutions, error) {
 		return defaultSubstitutions(b), nil
 	}
 	subs := strings.Split(attrSub, ",")
+	for i := range subs {
+		subs[i] = strings.TrimSpace(subs[i])
+	}
 	var result *substitutions
 	// when dealing with incremental substitutions, use default sub as a baseline and append or prepend the incremental subs
 	if allIncremental(subs) {
@@ -245,6 +248,10 @@ func substitutionsFor(s string) (*substitutions, error) {
 		return noneSubstitutions(), nil
 	case "verbatim":
 		return verbatimSubstitutions(), nil
+	case "specialcharacters":
+		return &substitutions{
+			sequence: []string{SpecialCharacters},
+		}, nil
 	case "attributes", "macros", "quotes", "replacements", "post_replacements", "callouts", "specialchars":
 		return &substitutions{
 			sequence: []string{s},
-- 
2.43.0


From 2d083c908facd4eb8c541fbecbfceb68dad4a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:24 +0000
Subject: [PATCH 70/76] fix: escape the special characters when the
 specialchars substitution comes before the attributes one

---
 pkg/parser/document_substitutions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 2a3a64f..9eacfbd 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -190,6 +190,11 @@ func (s *substitutions) split() (*substitutions, *substitutions) {
 			phase2 = &substitutions{
 				sequence: s.sequence[i+1:],
 			}
+			if s.contains(SpecialCharacters) && !phase2.contains(SpecialCharacters) {
+				// the special characters are serialized before the second part
+				phase2.sequence = append([]string{SpecialCharacters}, phase2.sequence...)
+			}
+			break // even if there are attributes afterwards, too
 		}
 	}
 	return phase1, phase2
-- 
2.43.0


From 4d9a94c73bd485c89fb72b75e287f3759dcf9aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:25 +0000
Subject: [PATCH 71/76] fix: track the delimited blocks as they are parsed when
 preprocessing, and match the length of the delimiters of comments

---
 pkg/parser/context.go                |     3 +
 pkg/parser/document_preprocessing.go |    49 +-
 pkg/parser/parser.go                 | 12290 +++++++++++++------------
 pkg/parser/parser.peg                |    12 +-
 4 files changed, 6627 insertions(+), 5727 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index bbf8790..7a1178a 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -14,6 +14,7 @@ type ParseContext struct {
 	opts         []Option
 	levelOffsets levelOffsets
 	includeDepth int // number of nested file inclusions
+	delimiters   *blockDelimiterTracker
 	attributes   *contextAttributes
 	userMacros   map[string]configuration.MacroTemplate
 	counters     map[string]interface{}
@@ -36,6 +37,7 @@ func NewParseContext(config *configuration.Configuration, options ...Option) *Pa
 		filename:     config.Filename,
 		opts:         opts,
 		levelOffsets: []*levelOffset{},
+		delimiters:   newBlockDelimiterTracker(),
 		attributes:   newContextAttributes(config.Attributes),
 		userMacros:   config.Macros,
 		counters:     map[string]interface{}{},
@@ -48,6 +50,7 @@ func (c *ParseContext) Clone() *ParseContext {
 		opts:         options(c.opts).clone(),
 		levelOffsets: c.levelOffsets.clone(),
 		includeDepth: c.includeDepth,
+		delimiters:   c.delimiters, // the blocks in which a file is included
 		attributes:   c.attributes.clone(),
 		userMacros:   c.userMacros,
 		counters:     c.counters,
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 3ce7535..f77cc7e 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -35,11 +35,15 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, bool, error) {
 	}
 	c := conditions{}
 	scanner := newScanner(source)
-	t := newBlockDelimiterTracker()
+	t := ctx.delimiters
+	opts := append(options(ctx.opts).clone(), Entrypoint("DocumentRawLine"))
 	for scanner.Scan() {
 		line := scanner.Bytes()
-		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
+		element, err := Parse("", line, append(opts, t.withinDelimitedBlock())...)
 		if err != nil {
+			if b.enabled && string(bytes.TrimRight(line, " \t")) == "|===" {
+				t.track(tableDelimiter, 4)
+			}
 			// log.Error(err)
 			// content of line was not relevant in the context of preparsing (ie, it's a regular line), so let's keep it as-is (except for its trailing spaces)
 			b.Write(bytes.TrimRight(line, " \t"))
@@ -84,8 +88,11 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, bool, error) {
 					b.WriteString(f)
 				}
 			case *types.BlockDelimiter:
-				t.track(e.Kind, e.Length)
-				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
+				if e.Attributes != nil { // with a language: cannot close a block
+					t.open(e.Kind, e.Length)
+				} else {
+					t.track(e.Kind, e.Length)
+				}
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
 				if content, ok := e.SingleLineContent(); ok {
@@ -139,20 +146,32 @@ func newBlockDelimiterTracker() *blockDelimiterTracker {
 	}
 }
 
+const tableDelimiter = "table"
+
 func (t *blockDelimiterTracker) track(kind string, length int) {
-	switch {
-	case len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == kind && t.stack[len(t.stack)-1].length == length:
-		// pop
-		t.stack = t.stack[:len(t.stack)-1]
-	case t.withinVerbatimBlock():
+	// close the block, along with the ones that it contains
+	for i := len(t.stack) - 1; i >= 0; i-- {
+		if t.stack[i].kind == kind && t.stack[i].length == length {
+			t.stack = t.stack[:i]
+			return
+		}
+	}
+	t.open(kind, length)
+}
+
+func (t *blockDelimiterTracker) open(kind string, length int) {
+	if t.withinVerbatimBlock() || t.withinTable() {
 		// not a delimiter, but a line of the content
-	default:
-		// push
-		t.stack = append(t.stack, blockDelimiter{
-			kind:   kind,
-			length: length,
-		})
+		return
 	}
+	t.stack = append(t.stack, blockDelimiter{
+		kind:   kind,
+		length: length,
+	})
+}
+
+func (t *blockDelimiterTracker) withinTable() bool {
+	return len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == tableDelimiter
 }
 
 // withinVerbatimBlock returns true if the current block does not contain other blocks (nor attribute declarations)
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index ef69f3a..89861c9 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -1696,30 +1696,30 @@ var g = &grammar{
 														pos: position{line: 726, col: 9, offset: 23136},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23628},
+																pos: position{line: 740, col: 5, offset: 23515},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23628},
+																	pos: position{line: 740, col: 5, offset: 23515},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23628},
+																			pos:   position{line: 740, col: 5, offset: 23515},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23639},
+																				pos: position{line: 740, col: 16, offset: 23526},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23639},
+																					pos: position{line: 740, col: 16, offset: 23526},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23639},
+																							pos:        position{line: 740, col: 16, offset: 23526},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23646},
+																							pos: position{line: 740, col: 23, offset: 23533},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23646},
+																								pos:        position{line: 740, col: 23, offset: 23533},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,7 +1730,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23730},
+																			pos: position{line: 742, col: 8, offset: 23617},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine349,
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23876},
+																pos: position{line: 747, col: 5, offset: 23763},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23876},
+																	pos: position{line: 747, col: 5, offset: 23763},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23876},
+																			pos:   position{line: 747, col: 5, offset: 23763},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23887},
+																				pos: position{line: 747, col: 16, offset: 23774},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23887},
+																					pos: position{line: 747, col: 16, offset: 23774},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23887},
+																							pos:        position{line: 747, col: 16, offset: 23774},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23894},
+																							pos: position{line: 747, col: 23, offset: 23781},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23894},
+																								pos:        position{line: 747, col: 23, offset: 23781},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,7 +1819,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23978},
+																			pos: position{line: 749, col: 8, offset: 23865},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
 																				run: (*parser).callonDocumentRawLine368,
@@ -1874,27 +1874,102 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24364},
+																pos: position{line: 776, col: 5, offset: 24792},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24364},
+																	pos: position{line: 776, col: 5, offset: 24792},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 776, col: 5, offset: 24792},
+																			label: "delimiter",
+																			expr: &actionExpr{
+																				pos: position{line: 776, col: 16, offset: 24803},
+																				run: (*parser).callonDocumentRawLine381,
+																				expr: &litMatcher{
+																					pos:        position{line: 776, col: 16, offset: 24803},
+																					val:        "--",
+																					ignoreCase: false,
+																					want:       "\"--\"",
+																				},
+																			},
+																		},
+																		&zeroOrMoreExpr{
+																			pos: position{line: 778, col: 8, offset: 24880},
+																			expr: &actionExpr{
+																				pos: position{line: 2875, col: 10, offset: 90978},
+																				run: (*parser).callonDocumentRawLine384,
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2875, col: 10, offset: 90978},
+																					val:        "[\\t ]",
+																					chars:      []rune{'\t', ' '},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																		&choiceExpr{
+																			pos: position{line: 2897, col: 8, offset: 91376},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 2884, col: 12, offset: 91149},
+																					run: (*parser).callonDocumentRawLine387,
+																					expr: &choiceExpr{
+																						pos: position{line: 2884, col: 13, offset: 91150},
+																						alternatives: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 2884, col: 13, offset: 91150},
+																								val:        "\n",
+																								ignoreCase: false,
+																								want:       "\"\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2884, col: 20, offset: 91157},
+																								val:        "\r\n",
+																								ignoreCase: false,
+																								want:       "\"\\r\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2884, col: 29, offset: 91166},
+																								val:        "\r",
+																								ignoreCase: false,
+																								want:       "\"\\r\"",
+																							},
+																						},
+																					},
+																				},
+																				&notExpr{
+																					pos: position{line: 2894, col: 8, offset: 91326},
+																					expr: &anyMatcher{
+																						line: 2894, col: 9, offset: 91327,
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&actionExpr{
+																pos: position{line: 760, col: 26, offset: 24251},
+																run: (*parser).callonDocumentRawLine394,
+																expr: &seqExpr{
+																	pos: position{line: 760, col: 26, offset: 24251},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24364},
+																			pos:        position{line: 760, col: 26, offset: 24251},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24370},
+																			pos:   position{line: 760, col: 32, offset: 24257},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24500},
-																				run: (*parser).callonDocumentRawLine382,
+																				pos: position{line: 764, col: 13, offset: 24387},
+																				run: (*parser).callonDocumentRawLine398,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24501},
+																					pos: position{line: 764, col: 14, offset: 24388},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24501},
+																						pos:        position{line: 764, col: 14, offset: 24388},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,10 +1979,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24390},
+																			pos: position{line: 760, col: 52, offset: 24277},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine386,
+																				run: (*parser).callonDocumentRawLine402,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -1922,7 +1997,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine389,
+																					run: (*parser).callonDocumentRawLine405,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -1959,30 +2034,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24123},
-																run: (*parser).callonDocumentRawLine396,
+																pos: position{line: 754, col: 5, offset: 24010},
+																run: (*parser).callonDocumentRawLine412,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24123},
+																	pos: position{line: 754, col: 5, offset: 24010},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24123},
+																			pos:   position{line: 754, col: 5, offset: 24010},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24134},
-																				run: (*parser).callonDocumentRawLine399,
+																				pos: position{line: 754, col: 16, offset: 24021},
+																				run: (*parser).callonDocumentRawLine415,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24134},
+																					pos: position{line: 754, col: 16, offset: 24021},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24134},
+																							pos:        position{line: 754, col: 16, offset: 24021},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24140},
+																							pos: position{line: 754, col: 22, offset: 24027},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24140},
+																								pos:        position{line: 754, col: 22, offset: 24027},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,10 +2068,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24224},
+																			pos: position{line: 756, col: 8, offset: 24111},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine405,
+																				run: (*parser).callonDocumentRawLine421,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -2011,7 +2086,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine408,
+																					run: (*parser).callonDocumentRawLine424,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -2048,30 +2123,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24660},
-																run: (*parser).callonDocumentRawLine415,
+																pos: position{line: 769, col: 5, offset: 24547},
+																run: (*parser).callonDocumentRawLine431,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24660},
+																	pos: position{line: 769, col: 5, offset: 24547},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24660},
+																			pos:   position{line: 769, col: 5, offset: 24547},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24671},
-																				run: (*parser).callonDocumentRawLine418,
+																				pos: position{line: 769, col: 16, offset: 24558},
+																				run: (*parser).callonDocumentRawLine434,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24671},
+																					pos: position{line: 769, col: 16, offset: 24558},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24671},
+																							pos:        position{line: 769, col: 16, offset: 24558},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24678},
+																							pos: position{line: 769, col: 23, offset: 24565},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24678},
+																								pos:        position{line: 769, col: 23, offset: 24565},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,10 +2157,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24762},
+																			pos: position{line: 771, col: 8, offset: 24649},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine424,
+																				run: (*parser).callonDocumentRawLine440,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -2100,7 +2175,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine427,
+																					run: (*parser).callonDocumentRawLine443,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -2137,30 +2212,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25136},
-																run: (*parser).callonDocumentRawLine434,
+																pos: position{line: 783, col: 5, offset: 25023},
+																run: (*parser).callonDocumentRawLine450,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25136},
+																	pos: position{line: 783, col: 5, offset: 25023},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25136},
+																			pos:   position{line: 783, col: 5, offset: 25023},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25147},
-																				run: (*parser).callonDocumentRawLine437,
+																				pos: position{line: 783, col: 16, offset: 25034},
+																				run: (*parser).callonDocumentRawLine453,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25147},
+																					pos: position{line: 783, col: 16, offset: 25034},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25147},
+																							pos:        position{line: 783, col: 16, offset: 25034},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25154},
+																							pos: position{line: 783, col: 23, offset: 25041},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25154},
+																								pos:        position{line: 783, col: 23, offset: 25041},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,10 +2246,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25238},
+																			pos: position{line: 785, col: 8, offset: 25125},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine443,
+																				run: (*parser).callonDocumentRawLine459,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -2189,7 +2264,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine446,
+																					run: (*parser).callonDocumentRawLine462,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -2226,30 +2301,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25388},
-																run: (*parser).callonDocumentRawLine453,
+																pos: position{line: 790, col: 5, offset: 25275},
+																run: (*parser).callonDocumentRawLine469,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25388},
+																	pos: position{line: 790, col: 5, offset: 25275},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25388},
+																			pos:   position{line: 790, col: 5, offset: 25275},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25399},
-																				run: (*parser).callonDocumentRawLine456,
+																				pos: position{line: 790, col: 16, offset: 25286},
+																				run: (*parser).callonDocumentRawLine472,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25399},
+																					pos: position{line: 790, col: 16, offset: 25286},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25399},
+																							pos:        position{line: 790, col: 16, offset: 25286},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25406},
+																							pos: position{line: 790, col: 23, offset: 25293},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25406},
+																								pos:        position{line: 790, col: 23, offset: 25293},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,10 +2335,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25490},
+																			pos: position{line: 792, col: 8, offset: 25377},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine462,
+																				run: (*parser).callonDocumentRawLine478,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -2278,7 +2353,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine465,
+																					run: (*parser).callonDocumentRawLine481,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -2315,30 +2390,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25638},
-																run: (*parser).callonDocumentRawLine472,
+																pos: position{line: 797, col: 5, offset: 25525},
+																run: (*parser).callonDocumentRawLine488,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25638},
+																	pos: position{line: 797, col: 5, offset: 25525},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25638},
+																			pos:   position{line: 797, col: 5, offset: 25525},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25649},
-																				run: (*parser).callonDocumentRawLine475,
+																				pos: position{line: 797, col: 16, offset: 25536},
+																				run: (*parser).callonDocumentRawLine491,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25649},
+																					pos: position{line: 797, col: 16, offset: 25536},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25649},
+																							pos:        position{line: 797, col: 16, offset: 25536},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25656},
+																							pos: position{line: 797, col: 23, offset: 25543},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25656},
+																								pos:        position{line: 797, col: 23, offset: 25543},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,10 +2424,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25740},
+																			pos: position{line: 799, col: 8, offset: 25627},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine481,
+																				run: (*parser).callonDocumentRawLine497,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -2367,7 +2442,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine484,
+																					run: (*parser).callonDocumentRawLine500,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -2404,30 +2479,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25884},
-																run: (*parser).callonDocumentRawLine491,
+																pos: position{line: 804, col: 5, offset: 25771},
+																run: (*parser).callonDocumentRawLine507,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25884},
+																	pos: position{line: 804, col: 5, offset: 25771},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25884},
+																			pos:   position{line: 804, col: 5, offset: 25771},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25895},
-																				run: (*parser).callonDocumentRawLine494,
+																				pos: position{line: 804, col: 16, offset: 25782},
+																				run: (*parser).callonDocumentRawLine510,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25895},
+																					pos: position{line: 804, col: 16, offset: 25782},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25895},
+																							pos:        position{line: 804, col: 16, offset: 25782},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25902},
+																							pos: position{line: 804, col: 23, offset: 25789},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25902},
+																								pos:        position{line: 804, col: 23, offset: 25789},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,10 +2513,10 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25986},
+																			pos: position{line: 806, col: 8, offset: 25873},
 																			expr: &actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentRawLine500,
+																				run: (*parser).callonDocumentRawLine516,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -2456,7 +2531,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentRawLine503,
+																					run: (*parser).callonDocumentRawLine519,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -2500,24 +2575,24 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 42, col: 5, offset: 929},
-										run: (*parser).callonDocumentRawLine510,
+										run: (*parser).callonDocumentRawLine526,
 										expr: &seqExpr{
 											pos: position{line: 42, col: 5, offset: 929},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 42, col: 5, offset: 929},
-													run: (*parser).callonDocumentRawLine512,
+													run: (*parser).callonDocumentRawLine528,
 												},
 												&andCodeExpr{
 													pos: position{line: 46, col: 5, offset: 1073},
-													run: (*parser).callonDocumentRawLine513,
+													run: (*parser).callonDocumentRawLine529,
 												},
 												&labeledExpr{
 													pos:   position{line: 49, col: 5, offset: 1136},
 													label: "level",
 													expr: &actionExpr{
 														pos: position{line: 49, col: 12, offset: 1143},
-														run: (*parser).callonDocumentRawLine515,
+														run: (*parser).callonDocumentRawLine531,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 49, col: 12, offset: 1143},
 															expr: &litMatcher{
@@ -2531,11 +2606,11 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 53, col: 5, offset: 1252},
-													run: (*parser).callonDocumentRawLine518,
+													run: (*parser).callonDocumentRawLine534,
 												},
 												&actionExpr{
 													pos: position{line: 2879, col: 11, offset: 91039},
-													run: (*parser).callonDocumentRawLine519,
+													run: (*parser).callonDocumentRawLine535,
 													expr: &oneOrMoreExpr{
 														pos: position{line: 2879, col: 11, offset: 91039},
 														expr: &charClassMatcher{
@@ -2549,7 +2624,7 @@ var g = &grammar{
 												},
 												&actionExpr{
 													pos: position{line: 2825, col: 14, offset: 89571},
-													run: (*parser).callonDocumentRawLine522,
+													run: (*parser).callonDocumentRawLine538,
 													expr: &oneOrMoreExpr{
 														pos: position{line: 2825, col: 14, offset: 89571},
 														expr: &charClassMatcher{
@@ -4411,93 +4486,97 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26368},
+											pos: position{line: 820, col: 5, offset: 26255},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26368},
+												pos: position{line: 820, col: 5, offset: 26255},
 												exprs: []interface{}{
-													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23628},
-														run: (*parser).callonDocumentFragment77,
-														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23628},
-															exprs: []interface{}{
-																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23628},
-																	label: "delimiter",
-																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23639},
-																		run: (*parser).callonDocumentFragment80,
-																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23639},
-																			exprs: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23639},
-																					val:        "////",
-																					ignoreCase: false,
-																					want:       "\"////\"",
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23646},
-																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23646},
-																						val:        "/",
+													&labeledExpr{
+														pos:   position{line: 820, col: 5, offset: 26255},
+														label: "start",
+														expr: &actionExpr{
+															pos: position{line: 740, col: 5, offset: 23515},
+															run: (*parser).callonDocumentFragment78,
+															expr: &seqExpr{
+																pos: position{line: 740, col: 5, offset: 23515},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 740, col: 5, offset: 23515},
+																		label: "delimiter",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 16, offset: 23526},
+																			run: (*parser).callonDocumentFragment81,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 16, offset: 23526},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 740, col: 16, offset: 23526},
+																						val:        "////",
 																						ignoreCase: false,
-																						want:       "\"/\"",
+																						want:       "\"////\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 740, col: 23, offset: 23533},
+																						expr: &litMatcher{
+																							pos:        position{line: 740, col: 23, offset: 23533},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
+																						},
 																					},
 																				},
 																			},
 																		},
 																	},
-																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23730},
-																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonDocumentFragment86,
-																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90978},
-																			val:        "[\\t ]",
-																			chars:      []rune{'\t', ' '},
-																			ignoreCase: false,
-																			inverted:   false,
+																	&zeroOrMoreExpr{
+																		pos: position{line: 742, col: 8, offset: 23617},
+																		expr: &actionExpr{
+																			pos: position{line: 2875, col: 10, offset: 90978},
+																			run: (*parser).callonDocumentFragment87,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2875, col: 10, offset: 90978},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
 																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91376},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonDocumentFragment89,
-																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91150},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91150},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91157},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91166},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																	&choiceExpr{
+																		pos: position{line: 2897, col: 8, offset: 91376},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2884, col: 12, offset: 91149},
+																				run: (*parser).callonDocumentFragment90,
+																				expr: &choiceExpr{
+																					pos: position{line: 2884, col: 13, offset: 91150},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2884, col: 13, offset: 91150},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2884, col: 20, offset: 91157},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2884, col: 29, offset: 91166},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
 																					},
 																				},
 																			},
-																		},
-																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91326},
-																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91327,
+																			&notExpr{
+																				pos: position{line: 2894, col: 8, offset: 91326},
+																				expr: &anyMatcher{
+																					line: 2894, col: 9, offset: 91327,
+																				},
 																			},
 																		},
 																	},
@@ -4505,109 +4584,126 @@ var g = &grammar{
 															},
 														},
 													},
+													&andCodeExpr{
+														pos: position{line: 820, col: 33, offset: 26283},
+														run: (*parser).callonDocumentFragment97,
+													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26399},
+														pos:   position{line: 823, col: 5, offset: 26375},
 														label: "content",
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 831, col: 5, offset: 26685},
 															expr: &actionExpr{
 																pos: position{line: 831, col: 6, offset: 26686},
-																run: (*parser).callonDocumentFragment98,
+																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
 																	pos: position{line: 831, col: 6, offset: 26686},
 																	exprs: []interface{}{
 																		&notExpr{
 																			pos: position{line: 831, col: 6, offset: 26686},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26628},
+																				pos: position{line: 828, col: 29, offset: 26551},
 																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23628},
-																						run: (*parser).callonDocumentFragment102,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23628},
-																							exprs: []interface{}{
-																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23628},
-																									label: "delimiter",
-																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23639},
-																										run: (*parser).callonDocumentFragment105,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23639},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23639},
-																													val:        "////",
-																													ignoreCase: false,
-																													want:       "\"////\"",
+																					&seqExpr{
+																						pos: position{line: 828, col: 29, offset: 26551},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 828, col: 29, offset: 26551},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 5, offset: 23515},
+																									run: (*parser).callonDocumentFragment106,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 5, offset: 23515},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23515},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23526},
+																													run: (*parser).callonDocumentFragment109,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23526},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23526},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23533},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23533},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
 																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23646},
-																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23646},
-																														val:        "/",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 742, col: 8, offset: 23617},
+																												expr: &actionExpr{
+																													pos: position{line: 2875, col: 10, offset: 90978},
+																													run: (*parser).callonDocumentFragment115,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2875, col: 10, offset: 90978},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
-																														want:       "\"/\"",
+																														inverted:   false,
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23730},
-																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90978},
-																										run: (*parser).callonDocumentFragment111,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90978},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91376},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91149},
-																											run: (*parser).callonDocumentFragment114,
-																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91150},
+																											&choiceExpr{
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91150},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91157},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																													&actionExpr{
+																														pos: position{line: 2884, col: 12, offset: 91149},
+																														run: (*parser).callonDocumentFragment118,
+																														expr: &choiceExpr{
+																															pos: position{line: 2884, col: 13, offset: 91150},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91166},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&notExpr{
+																														pos: position{line: 2894, col: 8, offset: 91326},
+																														expr: &anyMatcher{
+																															line: 2894, col: 9, offset: 91327,
+																														},
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91326},
-																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91327,
-																											},
-																										},
 																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 828, col: 54, offset: 26576},
+																								run: (*parser).callonDocumentFragment125,
+																							},
 																						},
 																					},
 																					&notExpr{
@@ -4623,10 +4719,10 @@ var g = &grammar{
 																			pos:   position{line: 832, col: 5, offset: 26716},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment124,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -4635,11 +4731,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment129,
+																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -4657,7 +4753,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment133,
+																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -4700,97 +4796,110 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26433},
+														pos: position{line: 824, col: 5, offset: 26409},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26628},
+															pos: position{line: 828, col: 29, offset: 26551},
 															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23628},
-																	run: (*parser).callonDocumentFragment142,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23628},
-																		exprs: []interface{}{
-																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23628},
-																				label: "delimiter",
-																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23639},
-																					run: (*parser).callonDocumentFragment145,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23639},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23639},
-																								val:        "////",
-																								ignoreCase: false,
-																								want:       "\"////\"",
+																&seqExpr{
+																	pos: position{line: 828, col: 29, offset: 26551},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 828, col: 29, offset: 26551},
+																			label: "end",
+																			expr: &actionExpr{
+																				pos: position{line: 740, col: 5, offset: 23515},
+																				run: (*parser).callonDocumentFragment149,
+																				expr: &seqExpr{
+																					pos: position{line: 740, col: 5, offset: 23515},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23515},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23526},
+																								run: (*parser).callonDocumentFragment152,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23526},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23526},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23533},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23533},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
 																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23646},
-																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23646},
-																									val:        "/",
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 742, col: 8, offset: 23617},
+																							expr: &actionExpr{
+																								pos: position{line: 2875, col: 10, offset: 90978},
+																								run: (*parser).callonDocumentFragment158,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2875, col: 10, offset: 90978},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
-																									want:       "\"/\"",
+																									inverted:   false,
 																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23730},
-																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90978},
-																					run: (*parser).callonDocumentFragment151,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90978},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91376},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonDocumentFragment154,
-																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91150},
+																						&choiceExpr{
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91150},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91157},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
+																								&actionExpr{
+																									pos: position{line: 2884, col: 12, offset: 91149},
+																									run: (*parser).callonDocumentFragment161,
+																									expr: &choiceExpr{
+																										pos: position{line: 2884, col: 13, offset: 91150},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 13, offset: 91150},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 20, offset: 91157},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 29, offset: 91166},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91166},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
+																								&notExpr{
+																									pos: position{line: 2894, col: 8, offset: 91326},
+																									expr: &anyMatcher{
+																										line: 2894, col: 9, offset: 91327,
+																									},
 																								},
 																							},
 																						},
 																					},
-																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91326},
-																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91327,
-																						},
-																					},
 																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 828, col: 54, offset: 26576},
+																			run: (*parser).callonDocumentFragment168,
+																		},
 																	},
 																},
 																&notExpr{
@@ -4807,7 +4916,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 840, col: 5, offset: 26869},
-											run: (*parser).callonDocumentFragment163,
+											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
 												pos: position{line: 840, col: 5, offset: 26869},
 												exprs: []interface{}{
@@ -4815,30 +4924,30 @@ var g = &grammar{
 														pos:   position{line: 840, col: 5, offset: 26869},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23876},
-															run: (*parser).callonDocumentFragment166,
+															pos: position{line: 747, col: 5, offset: 23763},
+															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23876},
+																pos: position{line: 747, col: 5, offset: 23763},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23876},
+																		pos:   position{line: 747, col: 5, offset: 23763},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23887},
-																			run: (*parser).callonDocumentFragment169,
+																			pos: position{line: 747, col: 16, offset: 23774},
+																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23887},
+																				pos: position{line: 747, col: 16, offset: 23774},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23887},
+																						pos:        position{line: 747, col: 16, offset: 23774},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23894},
+																						pos: position{line: 747, col: 23, offset: 23781},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23894},
+																							pos:        position{line: 747, col: 23, offset: 23781},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4849,10 +4958,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23978},
+																		pos: position{line: 749, col: 8, offset: 23865},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment175,
+																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -4867,7 +4976,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment178,
+																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -4906,7 +5015,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 841, col: 5, offset: 26908},
-														run: (*parser).callonDocumentFragment185,
+														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
 														pos:   position{line: 844, col: 5, offset: 27000},
@@ -4915,7 +5024,7 @@ var g = &grammar{
 															pos: position{line: 859, col: 4, offset: 27397},
 															expr: &actionExpr{
 																pos: position{line: 859, col: 5, offset: 27398},
-																run: (*parser).callonDocumentFragment188,
+																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
 																	pos: position{line: 859, col: 5, offset: 27398},
 																	exprs: []interface{}{
@@ -4931,30 +5040,30 @@ var g = &grammar{
 																								pos:   position{line: 852, col: 5, offset: 27240},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23876},
-																									run: (*parser).callonDocumentFragment194,
+																									pos: position{line: 747, col: 5, offset: 23763},
+																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23876},
+																										pos: position{line: 747, col: 5, offset: 23763},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23876},
+																												pos:   position{line: 747, col: 5, offset: 23763},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23887},
-																													run: (*parser).callonDocumentFragment197,
+																													pos: position{line: 747, col: 16, offset: 23774},
+																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23887},
+																														pos: position{line: 747, col: 16, offset: 23774},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23887},
+																																pos:        position{line: 747, col: 16, offset: 23774},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23894},
+																																pos: position{line: 747, col: 23, offset: 23781},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23894},
+																																	pos:        position{line: 747, col: 23, offset: 23781},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4965,10 +5074,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23978},
+																												pos: position{line: 749, col: 8, offset: 23865},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment203,
+																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -4983,7 +5092,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment206,
+																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -5022,7 +5131,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 853, col: 5, offset: 27271},
-																								run: (*parser).callonDocumentFragment213,
+																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
@@ -5039,10 +5148,10 @@ var g = &grammar{
 																			pos:   position{line: 860, col: 5, offset: 27428},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment217,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -5051,11 +5160,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment222,
+																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -5073,7 +5182,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment226,
+																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -5130,30 +5239,30 @@ var g = &grammar{
 																				pos:   position{line: 852, col: 5, offset: 27240},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23876},
-																					run: (*parser).callonDocumentFragment238,
+																					pos: position{line: 747, col: 5, offset: 23763},
+																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23876},
+																						pos: position{line: 747, col: 5, offset: 23763},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23876},
+																								pos:   position{line: 747, col: 5, offset: 23763},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23887},
-																									run: (*parser).callonDocumentFragment241,
+																									pos: position{line: 747, col: 16, offset: 23774},
+																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23887},
+																										pos: position{line: 747, col: 16, offset: 23774},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23887},
+																												pos:        position{line: 747, col: 16, offset: 23774},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23894},
+																												pos: position{line: 747, col: 23, offset: 23781},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23894},
+																													pos:        position{line: 747, col: 23, offset: 23781},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5164,10 +5273,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23978},
+																								pos: position{line: 749, col: 8, offset: 23865},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment247,
+																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -5182,7 +5291,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment250,
+																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -5221,7 +5330,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 853, col: 5, offset: 27271},
-																				run: (*parser).callonDocumentFragment257,
+																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
@@ -5240,7 +5349,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 952, col: 5, offset: 29720},
-											run: (*parser).callonDocumentFragment260,
+											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
 												pos: position{line: 952, col: 5, offset: 29720},
 												exprs: []interface{}{
@@ -5248,27 +5357,27 @@ var g = &grammar{
 														pos:   position{line: 952, col: 5, offset: 29720},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24364},
-															run: (*parser).callonDocumentFragment263,
+															pos: position{line: 760, col: 26, offset: 24251},
+															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24364},
+																pos: position{line: 760, col: 26, offset: 24251},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24364},
+																		pos:        position{line: 760, col: 26, offset: 24251},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24370},
+																		pos:   position{line: 760, col: 32, offset: 24257},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24500},
-																			run: (*parser).callonDocumentFragment267,
+																			pos: position{line: 764, col: 13, offset: 24387},
+																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24501},
+																				pos: position{line: 764, col: 14, offset: 24388},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24501},
+																					pos:        position{line: 764, col: 14, offset: 24388},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5278,10 +5387,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24390},
+																		pos: position{line: 760, col: 52, offset: 24277},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment271,
+																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -5296,7 +5405,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment274,
+																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -5340,7 +5449,7 @@ var g = &grammar{
 															pos: position{line: 966, col: 5, offset: 30239},
 															expr: &actionExpr{
 																pos: position{line: 966, col: 6, offset: 30240},
-																run: (*parser).callonDocumentFragment283,
+																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
 																	pos: position{line: 966, col: 6, offset: 30240},
 																	exprs: []interface{}{
@@ -5359,7 +5468,7 @@ var g = &grammar{
 																						pos: position{line: 963, col: 40, offset: 30193},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonDocumentFragment289,
+																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -5374,7 +5483,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonDocumentFragment292,
+																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -5414,10 +5523,10 @@ var g = &grammar{
 																			pos:   position{line: 967, col: 5, offset: 30275},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment300,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -5426,11 +5535,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment305,
+																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -5448,7 +5557,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment309,
+																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -5505,7 +5614,7 @@ var g = &grammar{
 																	pos: position{line: 963, col: 40, offset: 30193},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonDocumentFragment320,
+																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -5520,7 +5629,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonDocumentFragment323,
+																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -5561,7 +5670,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 868, col: 5, offset: 27581},
-											run: (*parser).callonDocumentFragment330,
+											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
 												pos: position{line: 868, col: 5, offset: 27581},
 												exprs: []interface{}{
@@ -5569,30 +5678,30 @@ var g = &grammar{
 														pos:   position{line: 868, col: 5, offset: 27581},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24123},
-															run: (*parser).callonDocumentFragment333,
+															pos: position{line: 754, col: 5, offset: 24010},
+															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24123},
+																pos: position{line: 754, col: 5, offset: 24010},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24123},
+																		pos:   position{line: 754, col: 5, offset: 24010},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24134},
-																			run: (*parser).callonDocumentFragment336,
+																			pos: position{line: 754, col: 16, offset: 24021},
+																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24134},
+																				pos: position{line: 754, col: 16, offset: 24021},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24134},
+																						pos:        position{line: 754, col: 16, offset: 24021},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24140},
+																						pos: position{line: 754, col: 22, offset: 24027},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24140},
+																							pos:        position{line: 754, col: 22, offset: 24027},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5603,10 +5712,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24224},
+																		pos: position{line: 756, col: 8, offset: 24111},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment342,
+																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -5621,7 +5730,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment345,
+																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -5660,7 +5769,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 869, col: 5, offset: 27619},
-														run: (*parser).callonDocumentFragment352,
+														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
 														pos:   position{line: 872, col: 5, offset: 27711},
@@ -5669,7 +5778,7 @@ var g = &grammar{
 															pos: position{line: 887, col: 5, offset: 28101},
 															expr: &actionExpr{
 																pos: position{line: 887, col: 6, offset: 28102},
-																run: (*parser).callonDocumentFragment355,
+																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
 																	pos: position{line: 887, col: 6, offset: 28102},
 																	exprs: []interface{}{
@@ -5685,30 +5794,30 @@ var g = &grammar{
 																								pos:   position{line: 880, col: 5, offset: 27945},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24123},
-																									run: (*parser).callonDocumentFragment361,
+																									pos: position{line: 754, col: 5, offset: 24010},
+																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24123},
+																										pos: position{line: 754, col: 5, offset: 24010},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24123},
+																												pos:   position{line: 754, col: 5, offset: 24010},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24134},
-																													run: (*parser).callonDocumentFragment364,
+																													pos: position{line: 754, col: 16, offset: 24021},
+																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24134},
+																														pos: position{line: 754, col: 16, offset: 24021},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24134},
+																																pos:        position{line: 754, col: 16, offset: 24021},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24140},
+																																pos: position{line: 754, col: 22, offset: 24027},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24140},
+																																	pos:        position{line: 754, col: 22, offset: 24027},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5719,10 +5828,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24224},
+																												pos: position{line: 756, col: 8, offset: 24111},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment370,
+																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -5737,7 +5846,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment373,
+																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -5776,7 +5885,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 881, col: 5, offset: 27975},
-																								run: (*parser).callonDocumentFragment380,
+																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
@@ -5793,10 +5902,10 @@ var g = &grammar{
 																			pos:   position{line: 888, col: 5, offset: 28131},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment384,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -5805,11 +5914,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment389,
+																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -5827,7 +5936,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment393,
+																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -5884,30 +5993,30 @@ var g = &grammar{
 																				pos:   position{line: 880, col: 5, offset: 27945},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24123},
-																					run: (*parser).callonDocumentFragment405,
+																					pos: position{line: 754, col: 5, offset: 24010},
+																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24123},
+																						pos: position{line: 754, col: 5, offset: 24010},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24123},
+																								pos:   position{line: 754, col: 5, offset: 24010},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24134},
-																									run: (*parser).callonDocumentFragment408,
+																									pos: position{line: 754, col: 16, offset: 24021},
+																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24134},
+																										pos: position{line: 754, col: 16, offset: 24021},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24134},
+																												pos:        position{line: 754, col: 16, offset: 24021},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24140},
+																												pos: position{line: 754, col: 22, offset: 24027},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24140},
+																													pos:        position{line: 754, col: 22, offset: 24027},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5918,10 +6027,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24224},
+																								pos: position{line: 756, col: 8, offset: 24111},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment414,
+																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -5936,7 +6045,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment417,
+																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -5975,7 +6084,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 881, col: 5, offset: 27975},
-																				run: (*parser).callonDocumentFragment424,
+																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
@@ -5994,7 +6103,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 896, col: 5, offset: 28286},
-											run: (*parser).callonDocumentFragment427,
+											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
 												pos: position{line: 896, col: 5, offset: 28286},
 												exprs: []interface{}{
@@ -6002,30 +6111,30 @@ var g = &grammar{
 														pos:   position{line: 896, col: 5, offset: 28286},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24660},
-															run: (*parser).callonDocumentFragment430,
+															pos: position{line: 769, col: 5, offset: 24547},
+															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24660},
+																pos: position{line: 769, col: 5, offset: 24547},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24660},
+																		pos:   position{line: 769, col: 5, offset: 24547},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24671},
-																			run: (*parser).callonDocumentFragment433,
+																			pos: position{line: 769, col: 16, offset: 24558},
+																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24671},
+																				pos: position{line: 769, col: 16, offset: 24558},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24671},
+																						pos:        position{line: 769, col: 16, offset: 24558},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24678},
+																						pos: position{line: 769, col: 23, offset: 24565},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24678},
+																							pos:        position{line: 769, col: 23, offset: 24565},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6036,10 +6145,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24762},
+																		pos: position{line: 771, col: 8, offset: 24649},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment439,
+																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -6054,7 +6163,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment442,
+																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -6093,7 +6202,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 897, col: 5, offset: 28325},
-														run: (*parser).callonDocumentFragment449,
+														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
 														pos:   position{line: 900, col: 5, offset: 28417},
@@ -6102,7 +6211,7 @@ var g = &grammar{
 															pos: position{line: 915, col: 5, offset: 28815},
 															expr: &actionExpr{
 																pos: position{line: 915, col: 6, offset: 28816},
-																run: (*parser).callonDocumentFragment452,
+																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
 																	pos: position{line: 915, col: 6, offset: 28816},
 																	exprs: []interface{}{
@@ -6118,30 +6227,30 @@ var g = &grammar{
 																								pos:   position{line: 908, col: 5, offset: 28657},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24660},
-																									run: (*parser).callonDocumentFragment458,
+																									pos: position{line: 769, col: 5, offset: 24547},
+																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24660},
+																										pos: position{line: 769, col: 5, offset: 24547},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24660},
+																												pos:   position{line: 769, col: 5, offset: 24547},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24671},
-																													run: (*parser).callonDocumentFragment461,
+																													pos: position{line: 769, col: 16, offset: 24558},
+																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24671},
+																														pos: position{line: 769, col: 16, offset: 24558},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24671},
+																																pos:        position{line: 769, col: 16, offset: 24558},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24678},
+																																pos: position{line: 769, col: 23, offset: 24565},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24678},
+																																	pos:        position{line: 769, col: 23, offset: 24565},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6152,10 +6261,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24762},
+																												pos: position{line: 771, col: 8, offset: 24649},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment467,
+																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -6170,7 +6279,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment470,
+																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -6209,7 +6318,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 909, col: 5, offset: 28688},
-																								run: (*parser).callonDocumentFragment477,
+																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
@@ -6226,10 +6335,10 @@ var g = &grammar{
 																			pos:   position{line: 916, col: 5, offset: 28846},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment481,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -6238,11 +6347,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment486,
+																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -6260,7 +6369,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment490,
+																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -6317,30 +6426,30 @@ var g = &grammar{
 																				pos:   position{line: 908, col: 5, offset: 28657},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24660},
-																					run: (*parser).callonDocumentFragment502,
+																					pos: position{line: 769, col: 5, offset: 24547},
+																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24660},
+																						pos: position{line: 769, col: 5, offset: 24547},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24660},
+																								pos:   position{line: 769, col: 5, offset: 24547},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24671},
-																									run: (*parser).callonDocumentFragment505,
+																									pos: position{line: 769, col: 16, offset: 24558},
+																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24671},
+																										pos: position{line: 769, col: 16, offset: 24558},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24671},
+																												pos:        position{line: 769, col: 16, offset: 24558},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24678},
+																												pos: position{line: 769, col: 23, offset: 24565},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24678},
+																													pos:        position{line: 769, col: 23, offset: 24565},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6351,10 +6460,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24762},
+																								pos: position{line: 771, col: 8, offset: 24649},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment511,
+																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -6369,7 +6478,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment514,
+																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -6408,7 +6517,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 909, col: 5, offset: 28688},
-																				run: (*parser).callonDocumentFragment521,
+																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
@@ -6427,7 +6536,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 924, col: 5, offset: 29001},
-											run: (*parser).callonDocumentFragment524,
+											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
 												pos: position{line: 924, col: 5, offset: 29001},
 												exprs: []interface{}{
@@ -6435,30 +6544,30 @@ var g = &grammar{
 														pos:   position{line: 924, col: 5, offset: 29001},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25136},
-															run: (*parser).callonDocumentFragment527,
+															pos: position{line: 783, col: 5, offset: 25023},
+															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25136},
+																pos: position{line: 783, col: 5, offset: 25023},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25136},
+																		pos:   position{line: 783, col: 5, offset: 25023},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25147},
-																			run: (*parser).callonDocumentFragment530,
+																			pos: position{line: 783, col: 16, offset: 25034},
+																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25147},
+																				pos: position{line: 783, col: 16, offset: 25034},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25147},
+																						pos:        position{line: 783, col: 16, offset: 25034},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25154},
+																						pos: position{line: 783, col: 23, offset: 25041},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25154},
+																							pos:        position{line: 783, col: 23, offset: 25041},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6469,10 +6578,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25238},
+																		pos: position{line: 785, col: 8, offset: 25125},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment536,
+																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -6487,7 +6596,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment539,
+																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -6526,7 +6635,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 925, col: 5, offset: 29040},
-														run: (*parser).callonDocumentFragment546,
+														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
 														pos:   position{line: 928, col: 5, offset: 29132},
@@ -6535,7 +6644,7 @@ var g = &grammar{
 															pos: position{line: 943, col: 5, offset: 29530},
 															expr: &actionExpr{
 																pos: position{line: 943, col: 6, offset: 29531},
-																run: (*parser).callonDocumentFragment549,
+																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
 																	pos: position{line: 943, col: 6, offset: 29531},
 																	exprs: []interface{}{
@@ -6551,30 +6660,30 @@ var g = &grammar{
 																								pos:   position{line: 936, col: 5, offset: 29372},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25136},
-																									run: (*parser).callonDocumentFragment555,
+																									pos: position{line: 783, col: 5, offset: 25023},
+																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25136},
+																										pos: position{line: 783, col: 5, offset: 25023},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25136},
+																												pos:   position{line: 783, col: 5, offset: 25023},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25147},
-																													run: (*parser).callonDocumentFragment558,
+																													pos: position{line: 783, col: 16, offset: 25034},
+																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25147},
+																														pos: position{line: 783, col: 16, offset: 25034},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25147},
+																																pos:        position{line: 783, col: 16, offset: 25034},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25154},
+																																pos: position{line: 783, col: 23, offset: 25041},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25154},
+																																	pos:        position{line: 783, col: 23, offset: 25041},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6585,10 +6694,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25238},
+																												pos: position{line: 785, col: 8, offset: 25125},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment564,
+																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -6603,7 +6712,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment567,
+																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -6642,7 +6751,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 937, col: 5, offset: 29403},
-																								run: (*parser).callonDocumentFragment574,
+																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
@@ -6659,10 +6768,10 @@ var g = &grammar{
 																			pos:   position{line: 944, col: 5, offset: 29561},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment578,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -6671,11 +6780,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment583,
+																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -6693,7 +6802,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment587,
+																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -6750,30 +6859,30 @@ var g = &grammar{
 																				pos:   position{line: 936, col: 5, offset: 29372},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25136},
-																					run: (*parser).callonDocumentFragment599,
+																					pos: position{line: 783, col: 5, offset: 25023},
+																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25136},
+																						pos: position{line: 783, col: 5, offset: 25023},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25136},
+																								pos:   position{line: 783, col: 5, offset: 25023},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25147},
-																									run: (*parser).callonDocumentFragment602,
+																									pos: position{line: 783, col: 16, offset: 25034},
+																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25147},
+																										pos: position{line: 783, col: 16, offset: 25034},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25147},
+																												pos:        position{line: 783, col: 16, offset: 25034},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25154},
+																												pos: position{line: 783, col: 23, offset: 25041},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25154},
+																													pos:        position{line: 783, col: 23, offset: 25041},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6784,10 +6893,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25238},
+																								pos: position{line: 785, col: 8, offset: 25125},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment608,
+																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -6802,7 +6911,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment611,
+																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -6841,7 +6950,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 937, col: 5, offset: 29403},
-																				run: (*parser).callonDocumentFragment618,
+																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
@@ -6860,7 +6969,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 975, col: 5, offset: 30444},
-											run: (*parser).callonDocumentFragment621,
+											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
 												pos: position{line: 975, col: 5, offset: 30444},
 												exprs: []interface{}{
@@ -6869,7 +6978,7 @@ var g = &grammar{
 														label: "firstLine",
 														expr: &actionExpr{
 															pos: position{line: 982, col: 5, offset: 30703},
-															run: (*parser).callonDocumentFragment624,
+															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
 																pos: position{line: 982, col: 5, offset: 30703},
 																exprs: []interface{}{
@@ -6877,7 +6986,7 @@ var g = &grammar{
 																		pos: position{line: 982, col: 5, offset: 30703},
 																		expr: &actionExpr{
 																			pos: position{line: 677, col: 14, offset: 21533},
-																			run: (*parser).callonDocumentFragment627,
+																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
 																				pos: position{line: 677, col: 14, offset: 21533},
 																				exprs: []interface{}{
@@ -6891,7 +7000,7 @@ var g = &grammar{
 																						pos: position{line: 677, col: 21, offset: 21540},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonDocumentFragment632,
+																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -6906,7 +7015,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonDocumentFragment635,
+																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -6954,7 +7063,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
-																			run: (*parser).callonDocumentFragment644,
+																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 2825, col: 14, offset: 89571},
 																				expr: &charClassMatcher{
@@ -6972,7 +7081,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment648,
+																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -7019,7 +7128,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 982, col: 5, offset: 30703},
-																		run: (*parser).callonDocumentFragment658,
+																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
 																			pos: position{line: 982, col: 5, offset: 30703},
 																			exprs: []interface{}{
@@ -7027,7 +7136,7 @@ var g = &grammar{
 																					pos: position{line: 982, col: 5, offset: 30703},
 																					expr: &actionExpr{
 																						pos: position{line: 677, col: 14, offset: 21533},
-																						run: (*parser).callonDocumentFragment661,
+																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
 																							pos: position{line: 677, col: 14, offset: 21533},
 																							exprs: []interface{}{
@@ -7041,7 +7150,7 @@ var g = &grammar{
 																									pos: position{line: 677, col: 21, offset: 21540},
 																									expr: &actionExpr{
 																										pos: position{line: 2875, col: 10, offset: 90978},
-																										run: (*parser).callonDocumentFragment666,
+																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
@@ -7056,7 +7165,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2884, col: 12, offset: 91149},
-																											run: (*parser).callonDocumentFragment669,
+																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
 																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
@@ -7104,7 +7213,7 @@ var g = &grammar{
 																					label: "content",
 																					expr: &actionExpr{
 																						pos: position{line: 2825, col: 14, offset: 89571},
-																						run: (*parser).callonDocumentFragment678,
+																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 2825, col: 14, offset: 89571},
 																							expr: &charClassMatcher{
@@ -7122,7 +7231,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonDocumentFragment682,
+																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -7160,7 +7269,7 @@ var g = &grammar{
 																	},
 																	&actionExpr{
 																		pos: position{line: 1786, col: 5, offset: 57743},
-																		run: (*parser).callonDocumentFragment689,
+																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
 																			pos: position{line: 1786, col: 5, offset: 57743},
 																			exprs: []interface{}{
@@ -7169,7 +7278,7 @@ var g = &grammar{
 																					label: "content",
 																					expr: &actionExpr{
 																						pos: position{line: 2825, col: 14, offset: 89571},
-																						run: (*parser).callonDocumentFragment692,
+																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 2825, col: 14, offset: 89571},
 																							expr: &charClassMatcher{
@@ -7184,14 +7293,14 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1787, col: 5, offset: 57767},
-																					run: (*parser).callonDocumentFragment695,
+																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
 																					pos: position{line: 2897, col: 8, offset: 91376},
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonDocumentFragment697,
+																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -7236,7 +7345,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 997, col: 5, offset: 30993},
-											run: (*parser).callonDocumentFragment704,
+											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
 												pos: position{line: 997, col: 5, offset: 30993},
 												exprs: []interface{}{
@@ -7244,19 +7353,19 @@ var g = &grammar{
 														pos:   position{line: 997, col: 5, offset: 30993},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24905},
-															run: (*parser).callonDocumentFragment707,
+															pos: position{line: 776, col: 5, offset: 24792},
+															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24905},
+																pos: position{line: 776, col: 5, offset: 24792},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24905},
+																		pos:   position{line: 776, col: 5, offset: 24792},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24916},
-																			run: (*parser).callonDocumentFragment710,
+																			pos: position{line: 776, col: 16, offset: 24803},
+																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24916},
+																				pos:        position{line: 776, col: 16, offset: 24803},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7264,10 +7373,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24993},
+																		pos: position{line: 778, col: 8, offset: 24880},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment713,
+																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -7282,7 +7391,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment716,
+																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -7326,7 +7435,7 @@ var g = &grammar{
 															pos: position{line: 1008, col: 5, offset: 31297},
 															expr: &actionExpr{
 																pos: position{line: 1008, col: 6, offset: 31298},
-																run: (*parser).callonDocumentFragment725,
+																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
 																	pos: position{line: 1008, col: 6, offset: 31298},
 																	exprs: []interface{}{
@@ -7336,19 +7445,19 @@ var g = &grammar{
 																				pos: position{line: 1005, col: 26, offset: 31246},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24905},
-																						run: (*parser).callonDocumentFragment729,
+																						pos: position{line: 776, col: 5, offset: 24792},
+																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24905},
+																							pos: position{line: 776, col: 5, offset: 24792},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24905},
+																									pos:   position{line: 776, col: 5, offset: 24792},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24916},
-																										run: (*parser).callonDocumentFragment732,
+																										pos: position{line: 776, col: 16, offset: 24803},
+																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24916},
+																											pos:        position{line: 776, col: 16, offset: 24803},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7356,10 +7465,10 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24993},
+																									pos: position{line: 778, col: 8, offset: 24880},
 																									expr: &actionExpr{
 																										pos: position{line: 2875, col: 10, offset: 90978},
-																										run: (*parser).callonDocumentFragment735,
+																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
@@ -7374,7 +7483,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2884, col: 12, offset: 91149},
-																											run: (*parser).callonDocumentFragment738,
+																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
 																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
@@ -7423,10 +7532,10 @@ var g = &grammar{
 																			pos:   position{line: 1009, col: 5, offset: 31325},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment748,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -7435,11 +7544,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment753,
+																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -7457,7 +7566,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment757,
+																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -7508,19 +7617,19 @@ var g = &grammar{
 																pos: position{line: 1005, col: 26, offset: 31246},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24905},
-																		run: (*parser).callonDocumentFragment767,
+																		pos: position{line: 776, col: 5, offset: 24792},
+																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24905},
+																			pos: position{line: 776, col: 5, offset: 24792},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24905},
+																					pos:   position{line: 776, col: 5, offset: 24792},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24916},
-																						run: (*parser).callonDocumentFragment770,
+																						pos: position{line: 776, col: 16, offset: 24803},
+																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24916},
+																							pos:        position{line: 776, col: 16, offset: 24803},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7528,10 +7637,10 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24993},
+																					pos: position{line: 778, col: 8, offset: 24880},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonDocumentFragment773,
+																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -7546,7 +7655,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonDocumentFragment776,
+																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -7597,7 +7706,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1017, col: 5, offset: 31488},
-											run: (*parser).callonDocumentFragment785,
+											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
 												pos: position{line: 1017, col: 5, offset: 31488},
 												exprs: []interface{}{
@@ -7605,30 +7714,30 @@ var g = &grammar{
 														pos:   position{line: 1017, col: 5, offset: 31488},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25388},
-															run: (*parser).callonDocumentFragment788,
+															pos: position{line: 790, col: 5, offset: 25275},
+															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25388},
+																pos: position{line: 790, col: 5, offset: 25275},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25388},
+																		pos:   position{line: 790, col: 5, offset: 25275},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25399},
-																			run: (*parser).callonDocumentFragment791,
+																			pos: position{line: 790, col: 16, offset: 25286},
+																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25399},
+																				pos: position{line: 790, col: 16, offset: 25286},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25399},
+																						pos:        position{line: 790, col: 16, offset: 25286},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25406},
+																						pos: position{line: 790, col: 23, offset: 25293},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25406},
+																							pos:        position{line: 790, col: 23, offset: 25293},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7639,10 +7748,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25490},
+																		pos: position{line: 792, col: 8, offset: 25377},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment797,
+																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -7657,7 +7766,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment800,
+																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -7696,7 +7805,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 1018, col: 5, offset: 31531},
-														run: (*parser).callonDocumentFragment807,
+														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
 														pos:   position{line: 1021, col: 5, offset: 31623},
@@ -7705,7 +7814,7 @@ var g = &grammar{
 															pos: position{line: 1036, col: 5, offset: 32053},
 															expr: &actionExpr{
 																pos: position{line: 1036, col: 6, offset: 32054},
-																run: (*parser).callonDocumentFragment810,
+																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
 																	pos: position{line: 1036, col: 6, offset: 32054},
 																	exprs: []interface{}{
@@ -7721,30 +7830,30 @@ var g = &grammar{
 																								pos:   position{line: 1029, col: 5, offset: 31887},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25388},
-																									run: (*parser).callonDocumentFragment816,
+																									pos: position{line: 790, col: 5, offset: 25275},
+																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25388},
+																										pos: position{line: 790, col: 5, offset: 25275},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25388},
+																												pos:   position{line: 790, col: 5, offset: 25275},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25399},
-																													run: (*parser).callonDocumentFragment819,
+																													pos: position{line: 790, col: 16, offset: 25286},
+																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25399},
+																														pos: position{line: 790, col: 16, offset: 25286},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25399},
+																																pos:        position{line: 790, col: 16, offset: 25286},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25406},
+																																pos: position{line: 790, col: 23, offset: 25293},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25406},
+																																	pos:        position{line: 790, col: 23, offset: 25293},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7755,10 +7864,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25490},
+																												pos: position{line: 792, col: 8, offset: 25377},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment825,
+																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -7773,7 +7882,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment828,
+																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -7812,7 +7921,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 1030, col: 5, offset: 31922},
-																								run: (*parser).callonDocumentFragment835,
+																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
@@ -7829,10 +7938,10 @@ var g = &grammar{
 																			pos:   position{line: 1037, col: 5, offset: 32088},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment839,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -7841,11 +7950,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment844,
+																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -7863,7 +7972,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment848,
+																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -7920,30 +8029,30 @@ var g = &grammar{
 																				pos:   position{line: 1029, col: 5, offset: 31887},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25388},
-																					run: (*parser).callonDocumentFragment860,
+																					pos: position{line: 790, col: 5, offset: 25275},
+																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25388},
+																						pos: position{line: 790, col: 5, offset: 25275},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25388},
+																								pos:   position{line: 790, col: 5, offset: 25275},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25399},
-																									run: (*parser).callonDocumentFragment863,
+																									pos: position{line: 790, col: 16, offset: 25286},
+																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25399},
+																										pos: position{line: 790, col: 16, offset: 25286},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25399},
+																												pos:        position{line: 790, col: 16, offset: 25286},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25406},
+																												pos: position{line: 790, col: 23, offset: 25293},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25406},
+																													pos:        position{line: 790, col: 23, offset: 25293},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7954,10 +8063,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25490},
+																								pos: position{line: 792, col: 8, offset: 25377},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment869,
+																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -7972,7 +8081,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment872,
+																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -8011,7 +8120,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 1030, col: 5, offset: 31922},
-																				run: (*parser).callonDocumentFragment879,
+																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
@@ -8030,7 +8139,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1045, col: 5, offset: 32239},
-											run: (*parser).callonDocumentFragment882,
+											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
 												pos: position{line: 1045, col: 5, offset: 32239},
 												exprs: []interface{}{
@@ -8038,30 +8147,30 @@ var g = &grammar{
 														pos:   position{line: 1045, col: 5, offset: 32239},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25638},
-															run: (*parser).callonDocumentFragment885,
+															pos: position{line: 797, col: 5, offset: 25525},
+															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25638},
+																pos: position{line: 797, col: 5, offset: 25525},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25638},
+																		pos:   position{line: 797, col: 5, offset: 25525},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25649},
-																			run: (*parser).callonDocumentFragment888,
+																			pos: position{line: 797, col: 16, offset: 25536},
+																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25649},
+																				pos: position{line: 797, col: 16, offset: 25536},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25649},
+																						pos:        position{line: 797, col: 16, offset: 25536},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25656},
+																						pos: position{line: 797, col: 23, offset: 25543},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25656},
+																							pos:        position{line: 797, col: 23, offset: 25543},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8072,10 +8181,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25740},
+																		pos: position{line: 799, col: 8, offset: 25627},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment894,
+																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -8090,7 +8199,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment897,
+																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -8129,7 +8238,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 1046, col: 5, offset: 32276},
-														run: (*parser).callonDocumentFragment904,
+														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
 														pos:   position{line: 1049, col: 5, offset: 32368},
@@ -8138,7 +8247,7 @@ var g = &grammar{
 															pos: position{line: 1064, col: 4, offset: 32749},
 															expr: &actionExpr{
 																pos: position{line: 1064, col: 5, offset: 32750},
-																run: (*parser).callonDocumentFragment907,
+																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
 																	pos: position{line: 1064, col: 5, offset: 32750},
 																	exprs: []interface{}{
@@ -8154,30 +8263,30 @@ var g = &grammar{
 																								pos:   position{line: 1057, col: 5, offset: 32596},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25638},
-																									run: (*parser).callonDocumentFragment913,
+																									pos: position{line: 797, col: 5, offset: 25525},
+																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25638},
+																										pos: position{line: 797, col: 5, offset: 25525},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25638},
+																												pos:   position{line: 797, col: 5, offset: 25525},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25649},
-																													run: (*parser).callonDocumentFragment916,
+																													pos: position{line: 797, col: 16, offset: 25536},
+																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25649},
+																														pos: position{line: 797, col: 16, offset: 25536},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25649},
+																																pos:        position{line: 797, col: 16, offset: 25536},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25656},
+																																pos: position{line: 797, col: 23, offset: 25543},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25656},
+																																	pos:        position{line: 797, col: 23, offset: 25543},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8188,10 +8297,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25740},
+																												pos: position{line: 799, col: 8, offset: 25627},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment922,
+																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -8206,7 +8315,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment925,
+																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -8245,7 +8354,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 1058, col: 5, offset: 32625},
-																								run: (*parser).callonDocumentFragment932,
+																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
@@ -8262,10 +8371,10 @@ var g = &grammar{
 																			pos:   position{line: 1065, col: 5, offset: 32778},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment936,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -8274,11 +8383,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment941,
+																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -8296,7 +8405,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment945,
+																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -8353,30 +8462,30 @@ var g = &grammar{
 																				pos:   position{line: 1057, col: 5, offset: 32596},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25638},
-																					run: (*parser).callonDocumentFragment957,
+																					pos: position{line: 797, col: 5, offset: 25525},
+																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25638},
+																						pos: position{line: 797, col: 5, offset: 25525},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25638},
+																								pos:   position{line: 797, col: 5, offset: 25525},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25649},
-																									run: (*parser).callonDocumentFragment960,
+																									pos: position{line: 797, col: 16, offset: 25536},
+																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25649},
+																										pos: position{line: 797, col: 16, offset: 25536},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25649},
+																												pos:        position{line: 797, col: 16, offset: 25536},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25656},
+																												pos: position{line: 797, col: 23, offset: 25543},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25656},
+																													pos:        position{line: 797, col: 23, offset: 25543},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8387,10 +8496,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25740},
+																								pos: position{line: 799, col: 8, offset: 25627},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment966,
+																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -8405,7 +8514,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment969,
+																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -8444,7 +8553,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 1058, col: 5, offset: 32625},
-																				run: (*parser).callonDocumentFragment976,
+																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
@@ -8463,7 +8572,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1073, col: 5, offset: 32933},
-											run: (*parser).callonDocumentFragment979,
+											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
 												pos: position{line: 1073, col: 5, offset: 32933},
 												exprs: []interface{}{
@@ -8471,30 +8580,30 @@ var g = &grammar{
 														pos:   position{line: 1073, col: 5, offset: 32933},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25884},
-															run: (*parser).callonDocumentFragment982,
+															pos: position{line: 804, col: 5, offset: 25771},
+															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25884},
+																pos: position{line: 804, col: 5, offset: 25771},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25884},
+																		pos:   position{line: 804, col: 5, offset: 25771},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25895},
-																			run: (*parser).callonDocumentFragment985,
+																			pos: position{line: 804, col: 16, offset: 25782},
+																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25895},
+																				pos: position{line: 804, col: 16, offset: 25782},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25895},
+																						pos:        position{line: 804, col: 16, offset: 25782},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25902},
+																						pos: position{line: 804, col: 23, offset: 25789},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25902},
+																							pos:        position{line: 804, col: 23, offset: 25789},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8505,10 +8614,10 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25986},
+																		pos: position{line: 806, col: 8, offset: 25873},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment991,
+																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -8523,7 +8632,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment994,
+																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -8562,7 +8671,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 1074, col: 5, offset: 32972},
-														run: (*parser).callonDocumentFragment1001,
+														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
 														pos:   position{line: 1077, col: 5, offset: 33064},
@@ -8571,7 +8680,7 @@ var g = &grammar{
 															pos: position{line: 1092, col: 4, offset: 33461},
 															expr: &actionExpr{
 																pos: position{line: 1092, col: 5, offset: 33462},
-																run: (*parser).callonDocumentFragment1004,
+																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
 																	pos: position{line: 1092, col: 5, offset: 33462},
 																	exprs: []interface{}{
@@ -8587,30 +8696,30 @@ var g = &grammar{
 																								pos:   position{line: 1085, col: 5, offset: 33304},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25884},
-																									run: (*parser).callonDocumentFragment1010,
+																									pos: position{line: 804, col: 5, offset: 25771},
+																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25884},
+																										pos: position{line: 804, col: 5, offset: 25771},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25884},
+																												pos:   position{line: 804, col: 5, offset: 25771},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25895},
-																													run: (*parser).callonDocumentFragment1013,
+																													pos: position{line: 804, col: 16, offset: 25782},
+																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25895},
+																														pos: position{line: 804, col: 16, offset: 25782},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25895},
+																																pos:        position{line: 804, col: 16, offset: 25782},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25902},
+																																pos: position{line: 804, col: 23, offset: 25789},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25902},
+																																	pos:        position{line: 804, col: 23, offset: 25789},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8621,10 +8730,10 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25986},
+																												pos: position{line: 806, col: 8, offset: 25873},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment1019,
+																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -8639,7 +8748,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment1022,
+																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -8678,7 +8787,7 @@ var g = &grammar{
 																							},
 																							&andCodeExpr{
 																								pos: position{line: 1086, col: 5, offset: 33335},
-																								run: (*parser).callonDocumentFragment1029,
+																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
@@ -8695,10 +8804,10 @@ var g = &grammar{
 																			pos:   position{line: 1093, col: 5, offset: 33492},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentFragment1033,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -8707,11 +8816,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentFragment1038,
+																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -8729,7 +8838,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentFragment1042,
+																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -8786,30 +8895,30 @@ var g = &grammar{
 																				pos:   position{line: 1085, col: 5, offset: 33304},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25884},
-																					run: (*parser).callonDocumentFragment1054,
+																					pos: position{line: 804, col: 5, offset: 25771},
+																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25884},
+																						pos: position{line: 804, col: 5, offset: 25771},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25884},
+																								pos:   position{line: 804, col: 5, offset: 25771},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25895},
-																									run: (*parser).callonDocumentFragment1057,
+																									pos: position{line: 804, col: 16, offset: 25782},
+																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25895},
+																										pos: position{line: 804, col: 16, offset: 25782},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25895},
+																												pos:        position{line: 804, col: 16, offset: 25782},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25902},
+																												pos: position{line: 804, col: 23, offset: 25789},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25902},
+																													pos:        position{line: 804, col: 23, offset: 25789},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8820,10 +8929,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25986},
+																								pos: position{line: 806, col: 8, offset: 25873},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentFragment1063,
+																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -8838,7 +8947,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentFragment1066,
+																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -8877,7 +8986,7 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 1086, col: 5, offset: 33335},
-																				run: (*parser).callonDocumentFragment1073,
+																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
@@ -8896,7 +9005,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2720, col: 18, offset: 86568},
-											run: (*parser).callonDocumentFragment1076,
+											run: (*parser).callonDocumentFragment1084,
 											expr: &seqExpr{
 												pos: position{line: 2720, col: 18, offset: 86568},
 												exprs: []interface{}{
@@ -8951,7 +9060,7 @@ var g = &grammar{
 														pos: position{line: 2723, col: 11, offset: 86716},
 														expr: &actionExpr{
 															pos: position{line: 2875, col: 10, offset: 90978},
-															run: (*parser).callonDocumentFragment1087,
+															run: (*parser).callonDocumentFragment1095,
 															expr: &charClassMatcher{
 																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
@@ -8966,7 +9075,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentFragment1090,
+																run: (*parser).callonDocumentFragment1098,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -9004,7 +9113,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentFragment1098,
+																run: (*parser).callonDocumentFragment1106,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -9046,7 +9155,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2611, col: 5, offset: 83504},
-											run: (*parser).callonDocumentFragment1106,
+											run: (*parser).callonDocumentFragment1114,
 											expr: &seqExpr{
 												pos: position{line: 2611, col: 5, offset: 83504},
 												exprs: []interface{}{
@@ -9060,7 +9169,7 @@ var g = &grammar{
 														pos: position{line: 2617, col: 26, offset: 83668},
 														expr: &actionExpr{
 															pos: position{line: 2875, col: 10, offset: 90978},
-															run: (*parser).callonDocumentFragment1110,
+															run: (*parser).callonDocumentFragment1118,
 															expr: &charClassMatcher{
 																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
@@ -9075,7 +9184,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentFragment1113,
+																run: (*parser).callonDocumentFragment1121,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -9118,7 +9227,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21533},
-																		run: (*parser).callonDocumentFragment1123,
+																		run: (*parser).callonDocumentFragment1131,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
@@ -9132,7 +9241,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonDocumentFragment1128,
+																						run: (*parser).callonDocumentFragment1136,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -9147,7 +9256,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonDocumentFragment1131,
+																							run: (*parser).callonDocumentFragment1139,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -9185,7 +9294,7 @@ var g = &grammar{
 																	},
 																	&actionExpr{
 																		pos: position{line: 2624, col: 5, offset: 83780},
-																		run: (*parser).callonDocumentFragment1138,
+																		run: (*parser).callonDocumentFragment1146,
 																		expr: &seqExpr{
 																			pos: position{line: 2624, col: 5, offset: 83780},
 																			exprs: []interface{}{
@@ -9207,7 +9316,7 @@ var g = &grammar{
 																										pos: position{line: 2617, col: 26, offset: 83668},
 																										expr: &actionExpr{
 																											pos: position{line: 2875, col: 10, offset: 90978},
-																											run: (*parser).callonDocumentFragment1145,
+																											run: (*parser).callonDocumentFragment1153,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
@@ -9222,7 +9331,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2884, col: 12, offset: 91149},
-																												run: (*parser).callonDocumentFragment1148,
+																												run: (*parser).callonDocumentFragment1156,
 																												expr: &choiceExpr{
 																													pos: position{line: 2884, col: 13, offset: 91150},
 																													alternatives: []interface{}{
@@ -9274,7 +9383,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2626, col: 10, offset: 83822},
-																								run: (*parser).callonDocumentFragment1159,
+																								run: (*parser).callonDocumentFragment1167,
 																								expr: &labeledExpr{
 																									pos:   position{line: 2626, col: 10, offset: 83822},
 																									label: "cells",
@@ -9283,7 +9392,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2634, col: 21, offset: 84025},
-																												run: (*parser).callonDocumentFragment1162,
+																												run: (*parser).callonDocumentFragment1170,
 																												expr: &seqExpr{
 																													pos: position{line: 2634, col: 21, offset: 84025},
 																													exprs: []interface{}{
@@ -9294,7 +9403,7 @@ var g = &grammar{
 																																pos: position{line: 2634, col: 27, offset: 84031},
 																																expr: &actionExpr{
 																																	pos: position{line: 2639, col: 5, offset: 84157},
-																																	run: (*parser).callonDocumentFragment1166,
+																																	run: (*parser).callonDocumentFragment1174,
 																																	expr: &seqExpr{
 																																		pos: position{line: 2639, col: 5, offset: 84157},
 																																		exprs: []interface{}{
@@ -9308,7 +9417,7 @@ var g = &grammar{
 																																				pos: position{line: 2639, col: 9, offset: 84161},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2875, col: 10, offset: 90978},
-																																					run: (*parser).callonDocumentFragment1170,
+																																					run: (*parser).callonDocumentFragment1178,
 																																					expr: &charClassMatcher{
 																																						pos:        position{line: 2875, col: 10, offset: 90978},
 																																						val:        "[\\t ]",
@@ -9323,13 +9432,13 @@ var g = &grammar{
 																																				label: "content",
 																																				expr: &actionExpr{
 																																					pos: position{line: 2645, col: 5, offset: 84339},
-																																					run: (*parser).callonDocumentFragment1173,
+																																					run: (*parser).callonDocumentFragment1181,
 																																					expr: &labeledExpr{
 																																						pos:   position{line: 2645, col: 5, offset: 84339},
 																																						label: "content",
 																																						expr: &actionExpr{
 																																							pos: position{line: 2645, col: 14, offset: 84348},
-																																							run: (*parser).callonDocumentFragment1175,
+																																							run: (*parser).callonDocumentFragment1183,
 																																							expr: &zeroOrMoreExpr{
 																																								pos: position{line: 2645, col: 14, offset: 84348},
 																																								expr: &charClassMatcher{
@@ -9354,7 +9463,7 @@ var g = &grammar{
 																															alternatives: []interface{}{
 																																&actionExpr{
 																																	pos: position{line: 2884, col: 12, offset: 91149},
-																																	run: (*parser).callonDocumentFragment1179,
+																																	run: (*parser).callonDocumentFragment1187,
 																																	expr: &choiceExpr{
 																																		pos: position{line: 2884, col: 13, offset: 91150},
 																																		alternatives: []interface{}{
@@ -9396,7 +9505,7 @@ var g = &grammar{
 																																		pos: position{line: 2634, col: 52, offset: 84056},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21533},
-																																			run: (*parser).callonDocumentFragment1189,
+																																			run: (*parser).callonDocumentFragment1197,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21533},
 																																				exprs: []interface{}{
@@ -9410,7 +9519,7 @@ var g = &grammar{
 																																						pos: position{line: 677, col: 21, offset: 21540},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2875, col: 10, offset: 90978},
-																																							run: (*parser).callonDocumentFragment1194,
+																																							run: (*parser).callonDocumentFragment1202,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2875, col: 10, offset: 90978},
 																																								val:        "[\\t ]",
@@ -9425,7 +9534,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2884, col: 12, offset: 91149},
-																																								run: (*parser).callonDocumentFragment1197,
+																																								run: (*parser).callonDocumentFragment1205,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2884, col: 13, offset: 91150},
 																																									alternatives: []interface{}{
@@ -9478,7 +9587,7 @@ var g = &grammar{
 																																						pos: position{line: 2617, col: 26, offset: 83668},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2875, col: 10, offset: 90978},
-																																							run: (*parser).callonDocumentFragment1208,
+																																							run: (*parser).callonDocumentFragment1216,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2875, col: 10, offset: 90978},
 																																								val:        "[\\t ]",
@@ -9493,7 +9602,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2884, col: 12, offset: 91149},
-																																								run: (*parser).callonDocumentFragment1211,
+																																								run: (*parser).callonDocumentFragment1219,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2884, col: 13, offset: 91150},
 																																									alternatives: []interface{}{
@@ -9622,7 +9731,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 2653, col: 24, offset: 84541},
-																												run: (*parser).callonDocumentFragment1235,
+																												run: (*parser).callonDocumentFragment1243,
 																												expr: &seqExpr{
 																													pos: position{line: 2653, col: 24, offset: 84541},
 																													exprs: []interface{}{
@@ -9633,7 +9742,7 @@ var g = &grammar{
 																																pos: position{line: 2653, col: 30, offset: 84547},
 																																expr: &actionExpr{
 																																	pos: position{line: 2657, col: 24, offset: 84676},
-																																	run: (*parser).callonDocumentFragment1239,
+																																	run: (*parser).callonDocumentFragment1247,
 																																	expr: &seqExpr{
 																																		pos: position{line: 2657, col: 24, offset: 84676},
 																																		exprs: []interface{}{
@@ -9655,7 +9764,7 @@ var g = &grammar{
 																																									pos: position{line: 2617, col: 26, offset: 83668},
 																																									expr: &actionExpr{
 																																										pos: position{line: 2875, col: 10, offset: 90978},
-																																										run: (*parser).callonDocumentFragment1246,
+																																										run: (*parser).callonDocumentFragment1254,
 																																										expr: &charClassMatcher{
 																																											pos:        position{line: 2875, col: 10, offset: 90978},
 																																											val:        "[\\t ]",
@@ -9670,7 +9779,7 @@ var g = &grammar{
 																																									alternatives: []interface{}{
 																																										&actionExpr{
 																																											pos: position{line: 2884, col: 12, offset: 91149},
-																																											run: (*parser).callonDocumentFragment1249,
+																																											run: (*parser).callonDocumentFragment1257,
 																																											expr: &choiceExpr{
 																																												pos: position{line: 2884, col: 13, offset: 91150},
 																																												alternatives: []interface{}{
@@ -9721,7 +9830,7 @@ var g = &grammar{
 																																					pos: position{line: 2657, col: 50, offset: 84702},
 																																					expr: &actionExpr{
 																																						pos: position{line: 2678, col: 20, offset: 85353},
-																																						run: (*parser).callonDocumentFragment1260,
+																																						run: (*parser).callonDocumentFragment1268,
 																																						expr: &zeroOrMoreExpr{
 																																							pos: position{line: 2678, col: 20, offset: 85353},
 																																							expr: &charClassMatcher{
@@ -9745,7 +9854,7 @@ var g = &grammar{
 																																				pos: position{line: 2657, col: 73, offset: 84725},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2875, col: 10, offset: 90978},
-																																					run: (*parser).callonDocumentFragment1265,
+																																					run: (*parser).callonDocumentFragment1273,
 																																					expr: &charClassMatcher{
 																																						pos:        position{line: 2875, col: 10, offset: 90978},
 																																						val:        "[\\t ]",
@@ -9760,13 +9869,13 @@ var g = &grammar{
 																																				label: "content",
 																																				expr: &actionExpr{
 																																					pos: position{line: 2645, col: 5, offset: 84339},
-																																					run: (*parser).callonDocumentFragment1268,
+																																					run: (*parser).callonDocumentFragment1276,
 																																					expr: &labeledExpr{
 																																						pos:   position{line: 2645, col: 5, offset: 84339},
 																																						label: "content",
 																																						expr: &actionExpr{
 																																							pos: position{line: 2645, col: 14, offset: 84348},
-																																							run: (*parser).callonDocumentFragment1270,
+																																							run: (*parser).callonDocumentFragment1278,
 																																							expr: &zeroOrMoreExpr{
 																																								pos: position{line: 2645, col: 14, offset: 84348},
 																																								expr: &charClassMatcher{
@@ -9800,7 +9909,7 @@ var g = &grammar{
 																															label: "last",
 																															expr: &actionExpr{
 																																pos: position{line: 2662, col: 5, offset: 84881},
-																																run: (*parser).callonDocumentFragment1276,
+																																run: (*parser).callonDocumentFragment1284,
 																																expr: &seqExpr{
 																																	pos: position{line: 2662, col: 5, offset: 84881},
 																																	exprs: []interface{}{
@@ -9822,7 +9931,7 @@ var g = &grammar{
 																																								pos: position{line: 2617, col: 26, offset: 83668},
 																																								expr: &actionExpr{
 																																									pos: position{line: 2875, col: 10, offset: 90978},
-																																									run: (*parser).callonDocumentFragment1283,
+																																									run: (*parser).callonDocumentFragment1291,
 																																									expr: &charClassMatcher{
 																																										pos:        position{line: 2875, col: 10, offset: 90978},
 																																										val:        "[\\t ]",
@@ -9837,7 +9946,7 @@ var g = &grammar{
 																																								alternatives: []interface{}{
 																																									&actionExpr{
 																																										pos: position{line: 2884, col: 12, offset: 91149},
-																																										run: (*parser).callonDocumentFragment1286,
+																																										run: (*parser).callonDocumentFragment1294,
 																																										expr: &choiceExpr{
 																																											pos: position{line: 2884, col: 13, offset: 91150},
 																																											alternatives: []interface{}{
@@ -9888,7 +9997,7 @@ var g = &grammar{
 																																				pos: position{line: 2663, col: 12, offset: 84911},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2678, col: 20, offset: 85353},
-																																					run: (*parser).callonDocumentFragment1297,
+																																					run: (*parser).callonDocumentFragment1305,
 																																					expr: &zeroOrMoreExpr{
 																																						pos: position{line: 2678, col: 20, offset: 85353},
 																																						expr: &charClassMatcher{
@@ -9912,7 +10021,7 @@ var g = &grammar{
 																																			pos: position{line: 2663, col: 35, offset: 84934},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2875, col: 10, offset: 90978},
-																																				run: (*parser).callonDocumentFragment1302,
+																																				run: (*parser).callonDocumentFragment1310,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 2875, col: 10, offset: 90978},
 																																					val:        "[\\t ]",
@@ -9926,7 +10035,7 @@ var g = &grammar{
 																																			pos: position{line: 2663, col: 42, offset: 84941},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2884, col: 12, offset: 91149},
-																																				run: (*parser).callonDocumentFragment1305,
+																																				run: (*parser).callonDocumentFragment1313,
 																																				expr: &choiceExpr{
 																																					pos: position{line: 2884, col: 13, offset: 91150},
 																																					alternatives: []interface{}{
@@ -9959,7 +10068,7 @@ var g = &grammar{
 																																				pos: position{line: 2669, col: 5, offset: 85109},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2670, col: 9, offset: 85119},
-																																					run: (*parser).callonDocumentFragment1312,
+																																					run: (*parser).callonDocumentFragment1320,
 																																					expr: &seqExpr{
 																																						pos: position{line: 2670, col: 9, offset: 85119},
 																																						exprs: []interface{}{
@@ -9972,7 +10081,7 @@ var g = &grammar{
 																																											pos: position{line: 2670, col: 11, offset: 85121},
 																																											expr: &actionExpr{
 																																												pos: position{line: 677, col: 14, offset: 21533},
-																																												run: (*parser).callonDocumentFragment1317,
+																																												run: (*parser).callonDocumentFragment1325,
 																																												expr: &seqExpr{
 																																													pos: position{line: 677, col: 14, offset: 21533},
 																																													exprs: []interface{}{
@@ -9986,7 +10095,7 @@ var g = &grammar{
 																																															pos: position{line: 677, col: 21, offset: 21540},
 																																															expr: &actionExpr{
 																																																pos: position{line: 2875, col: 10, offset: 90978},
-																																																run: (*parser).callonDocumentFragment1322,
+																																																run: (*parser).callonDocumentFragment1330,
 																																																expr: &charClassMatcher{
 																																																	pos:        position{line: 2875, col: 10, offset: 90978},
 																																																	val:        "[\\t ]",
@@ -10001,7 +10110,7 @@ var g = &grammar{
 																																															alternatives: []interface{}{
 																																																&actionExpr{
 																																																	pos: position{line: 2884, col: 12, offset: 91149},
-																																																	run: (*parser).callonDocumentFragment1325,
+																																																	run: (*parser).callonDocumentFragment1333,
 																																																	expr: &choiceExpr{
 																																																		pos: position{line: 2884, col: 13, offset: 91150},
 																																																		alternatives: []interface{}{
@@ -10054,7 +10163,7 @@ var g = &grammar{
 																																															pos: position{line: 2617, col: 26, offset: 83668},
 																																															expr: &actionExpr{
 																																																pos: position{line: 2875, col: 10, offset: 90978},
-																																																run: (*parser).callonDocumentFragment1336,
+																																																run: (*parser).callonDocumentFragment1344,
 																																																expr: &charClassMatcher{
 																																																	pos:        position{line: 2875, col: 10, offset: 90978},
 																																																	val:        "[\\t ]",
@@ -10069,7 +10178,7 @@ var g = &grammar{
 																																															alternatives: []interface{}{
 																																																&actionExpr{
 																																																	pos: position{line: 2884, col: 12, offset: 91149},
-																																																	run: (*parser).callonDocumentFragment1339,
+																																																	run: (*parser).callonDocumentFragment1347,
 																																																	expr: &choiceExpr{
 																																																		pos: position{line: 2884, col: 13, offset: 91150},
 																																																		alternatives: []interface{}{
@@ -10198,13 +10307,13 @@ var g = &grammar{
 																																								label: "content",
 																																								expr: &actionExpr{
 																																									pos: position{line: 2645, col: 5, offset: 84339},
-																																									run: (*parser).callonDocumentFragment1364,
+																																									run: (*parser).callonDocumentFragment1372,
 																																									expr: &labeledExpr{
 																																										pos:   position{line: 2645, col: 5, offset: 84339},
 																																										label: "content",
 																																										expr: &actionExpr{
 																																											pos: position{line: 2645, col: 14, offset: 84348},
-																																											run: (*parser).callonDocumentFragment1366,
+																																											run: (*parser).callonDocumentFragment1374,
 																																											expr: &zeroOrMoreExpr{
 																																												pos: position{line: 2645, col: 14, offset: 84348},
 																																												expr: &charClassMatcher{
@@ -10226,7 +10335,7 @@ var g = &grammar{
 																																									alternatives: []interface{}{
 																																										&actionExpr{
 																																											pos: position{line: 2884, col: 12, offset: 91149},
-																																											run: (*parser).callonDocumentFragment1371,
+																																											run: (*parser).callonDocumentFragment1379,
 																																											expr: &choiceExpr{
 																																												pos: position{line: 2884, col: 13, offset: 91150},
 																																												alternatives: []interface{}{
@@ -10278,7 +10387,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21533},
-																								run: (*parser).callonDocumentFragment1378,
+																								run: (*parser).callonDocumentFragment1386,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21533},
 																									exprs: []interface{}{
@@ -10292,7 +10401,7 @@ var g = &grammar{
 																											pos: position{line: 677, col: 21, offset: 21540},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonDocumentFragment1383,
+																												run: (*parser).callonDocumentFragment1391,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -10307,7 +10416,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonDocumentFragment1386,
+																													run: (*parser).callonDocumentFragment1394,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -10369,7 +10478,7 @@ var g = &grammar{
 																		pos: position{line: 2617, col: 26, offset: 83668},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment1397,
+																			run: (*parser).callonDocumentFragment1405,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -10384,7 +10493,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment1400,
+																				run: (*parser).callonDocumentFragment1408,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -10432,7 +10541,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2482, col: 22, offset: 79892},
-											run: (*parser).callonDocumentFragment1409,
+											run: (*parser).callonDocumentFragment1417,
 											expr: &seqExpr{
 												pos: position{line: 2482, col: 22, offset: 79892},
 												exprs: []interface{}{
@@ -10456,7 +10565,7 @@ var g = &grammar{
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2821, col: 13, offset: 89504},
-															run: (*parser).callonDocumentFragment1415,
+															run: (*parser).callonDocumentFragment1423,
 															expr: &zeroOrMoreExpr{
 																pos: position{line: 2821, col: 13, offset: 89504},
 																expr: &charClassMatcher{
@@ -10474,7 +10583,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentFragment1419,
+																run: (*parser).callonDocumentFragment1427,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -10512,20 +10621,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1222, col: 5, offset: 37910},
-											run: (*parser).callonDocumentFragment1426,
+											run: (*parser).callonDocumentFragment1434,
 											expr: &seqExpr{
 												pos: position{line: 1222, col: 5, offset: 37910},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1222, col: 5, offset: 37910},
-														run: (*parser).callonDocumentFragment1428,
+														run: (*parser).callonDocumentFragment1436,
 													},
 													&labeledExpr{
 														pos:   position{line: 1225, col: 5, offset: 37968},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1230, col: 20, offset: 38063},
-															run: (*parser).callonDocumentFragment1430,
+															run: (*parser).callonDocumentFragment1438,
 															expr: &seqExpr{
 																pos: position{line: 1230, col: 20, offset: 38063},
 																exprs: []interface{}{
@@ -10539,7 +10648,7 @@ var g = &grammar{
 																		pos: position{line: 1234, col: 36, offset: 38241},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment1434,
+																			run: (*parser).callonDocumentFragment1442,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -10554,7 +10663,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment1437,
+																				run: (*parser).callonDocumentFragment1445,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -10594,7 +10703,7 @@ var g = &grammar{
 																			pos: position{line: 1230, col: 53, offset: 38096},
 																			expr: &actionExpr{
 																				pos: position{line: 1236, col: 27, offset: 38279},
-																				run: (*parser).callonDocumentFragment1446,
+																				run: (*parser).callonDocumentFragment1454,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1236, col: 27, offset: 38279},
 																					expr: &oneOrMoreExpr{
@@ -10617,7 +10726,7 @@ var g = &grammar{
 																												pos: position{line: 1234, col: 36, offset: 38241},
 																												expr: &actionExpr{
 																													pos: position{line: 2875, col: 10, offset: 90978},
-																													run: (*parser).callonDocumentFragment1454,
+																													run: (*parser).callonDocumentFragment1462,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2875, col: 10, offset: 90978},
 																														val:        "[\\t ]",
@@ -10632,7 +10741,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2884, col: 12, offset: 91149},
-																														run: (*parser).callonDocumentFragment1457,
+																														run: (*parser).callonDocumentFragment1465,
 																														expr: &choiceExpr{
 																															pos: position{line: 2884, col: 13, offset: 91150},
 																															alternatives: []interface{}{
@@ -10688,7 +10797,7 @@ var g = &grammar{
 																		pos: position{line: 1234, col: 36, offset: 38241},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonDocumentFragment1467,
+																			run: (*parser).callonDocumentFragment1475,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -10703,7 +10812,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentFragment1470,
+																				run: (*parser).callonDocumentFragment1478,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -10753,7 +10862,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7599},
-							run: (*parser).callonDocumentFragment1478,
+							run: (*parser).callonDocumentFragment1486,
 						},
 					},
 				},
@@ -16226,93 +16335,97 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26368},
+										pos: position{line: 820, col: 5, offset: 26255},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26368},
+											pos: position{line: 820, col: 5, offset: 26255},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23628},
-													run: (*parser).callonDocumentHeader25,
-													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23628},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23628},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23639},
-																	run: (*parser).callonDocumentHeader28,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23639},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23639},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23646},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23646},
-																					val:        "/",
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26255},
+													label: "start",
+													expr: &actionExpr{
+														pos: position{line: 740, col: 5, offset: 23515},
+														run: (*parser).callonDocumentHeader26,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23515},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23515},
+																	label: "delimiter",
+																	expr: &actionExpr{
+																		pos: position{line: 740, col: 16, offset: 23526},
+																		run: (*parser).callonDocumentHeader29,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23526},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23526},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23533},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23533},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23730},
-																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonDocumentHeader34,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90978},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23617},
+																	expr: &actionExpr{
+																		pos: position{line: 2875, col: 10, offset: 90978},
+																		run: (*parser).callonDocumentHeader35,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2875, col: 10, offset: 90978},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91376},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonDocumentHeader37,
-																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91150},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91150},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91157},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91166},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2897, col: 8, offset: 91376},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2884, col: 12, offset: 91149},
+																			run: (*parser).callonDocumentHeader38,
+																			expr: &choiceExpr{
+																				pos: position{line: 2884, col: 13, offset: 91150},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 13, offset: 91150},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 20, offset: 91157},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 29, offset: 91166},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91326},
-																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91327,
+																		&notExpr{
+																			pos: position{line: 2894, col: 8, offset: 91326},
+																			expr: &anyMatcher{
+																				line: 2894, col: 9, offset: 91327,
+																			},
 																		},
 																	},
 																},
@@ -16320,109 +16433,126 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 820, col: 33, offset: 26283},
+													run: (*parser).callonDocumentHeader45,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26399},
+													pos:   position{line: 823, col: 5, offset: 26375},
 													label: "content",
 													expr: &zeroOrMoreExpr{
 														pos: position{line: 831, col: 5, offset: 26685},
 														expr: &actionExpr{
 															pos: position{line: 831, col: 6, offset: 26686},
-															run: (*parser).callonDocumentHeader46,
+															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
 																pos: position{line: 831, col: 6, offset: 26686},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 831, col: 6, offset: 26686},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26628},
+																			pos: position{line: 828, col: 29, offset: 26551},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23628},
-																					run: (*parser).callonDocumentHeader50,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23628},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23628},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23639},
-																									run: (*parser).callonDocumentHeader53,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23639},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23639},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 828, col: 29, offset: 26551},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 828, col: 29, offset: 26551},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23515},
+																								run: (*parser).callonDocumentHeader54,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23515},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23515},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23526},
+																												run: (*parser).callonDocumentHeader57,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23526},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23526},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23533},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23533},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23646},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23646},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23617},
+																											expr: &actionExpr{
+																												pos: position{line: 2875, col: 10, offset: 90978},
+																												run: (*parser).callonDocumentHeader63,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2875, col: 10, offset: 90978},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23730},
-																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentHeader59,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90978},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91376},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentHeader62,
-																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91150},
+																										&choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91150},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91157},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91149},
+																													run: (*parser).callonDocumentHeader66,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91150},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91150},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91157},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91166},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91166},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91326},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91327,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91326},
-																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91327,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 828, col: 54, offset: 26576},
+																							run: (*parser).callonDocumentHeader73,
+																						},
 																					},
 																				},
 																				&notExpr{
@@ -16438,10 +16568,10 @@ var g = &grammar{
 																		pos:   position{line: 832, col: 5, offset: 26716},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonDocumentHeader72,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -16450,11 +16580,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonDocumentHeader77,
+																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -16472,7 +16602,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonDocumentHeader81,
+																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -16515,97 +16645,110 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26433},
+													pos: position{line: 824, col: 5, offset: 26409},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26628},
+														pos: position{line: 828, col: 29, offset: 26551},
 														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23628},
-																run: (*parser).callonDocumentHeader90,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23628},
-																	exprs: []interface{}{
-																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23628},
-																			label: "delimiter",
-																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23639},
-																				run: (*parser).callonDocumentHeader93,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23639},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23639},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+															&seqExpr{
+																pos: position{line: 828, col: 29, offset: 26551},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 828, col: 29, offset: 26551},
+																		label: "end",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23515},
+																			run: (*parser).callonDocumentHeader97,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23515},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23515},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23526},
+																							run: (*parser).callonDocumentHeader100,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23526},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23526},
+																										val:        "////",
+																										ignoreCase: false,
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23533},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23533},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
+																									},
+																								},
+																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23646},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23646},
-																								val:        "/",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23617},
+																						expr: &actionExpr{
+																							pos: position{line: 2875, col: 10, offset: 90978},
+																							run: (*parser).callonDocumentHeader106,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2875, col: 10, offset: 90978},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
-																								want:       "\"/\"",
+																								inverted:   false,
 																							},
 																						},
 																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23730},
-																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentHeader99,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90978},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91376},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentHeader102,
-																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91150},
+																					&choiceExpr{
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91150},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91157},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																							&actionExpr{
+																								pos: position{line: 2884, col: 12, offset: 91149},
+																								run: (*parser).callonDocumentHeader109,
+																								expr: &choiceExpr{
+																									pos: position{line: 2884, col: 13, offset: 91150},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 13, offset: 91150},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 20, offset: 91157},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 29, offset: 91166},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91166},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&notExpr{
+																								pos: position{line: 2894, col: 8, offset: 91326},
+																								expr: &anyMatcher{
+																									line: 2894, col: 9, offset: 91327,
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91326},
-																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91327,
-																					},
-																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 828, col: 54, offset: 26576},
+																		run: (*parser).callonDocumentHeader116,
+																	},
 																},
 															},
 															&notExpr{
@@ -16638,7 +16781,7 @@ var g = &grammar{
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2482, col: 22, offset: 79892},
-										run: (*parser).callonDocumentHeader115,
+										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
 											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
@@ -16662,7 +16805,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2821, col: 13, offset: 89504},
-														run: (*parser).callonDocumentHeader121,
+														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
@@ -16680,7 +16823,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonDocumentHeader125,
+															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -16717,93 +16860,97 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26368},
-										run: (*parser).callonDocumentHeader132,
+										pos: position{line: 820, col: 5, offset: 26255},
+										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26368},
+											pos: position{line: 820, col: 5, offset: 26255},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23628},
-													run: (*parser).callonDocumentHeader134,
-													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23628},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23628},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23639},
-																	run: (*parser).callonDocumentHeader137,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23639},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23639},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23646},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23646},
-																					val:        "/",
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26255},
+													label: "start",
+													expr: &actionExpr{
+														pos: position{line: 740, col: 5, offset: 23515},
+														run: (*parser).callonDocumentHeader143,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23515},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23515},
+																	label: "delimiter",
+																	expr: &actionExpr{
+																		pos: position{line: 740, col: 16, offset: 23526},
+																		run: (*parser).callonDocumentHeader146,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23526},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23526},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23533},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23533},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23730},
-																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonDocumentHeader143,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90978},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23617},
+																	expr: &actionExpr{
+																		pos: position{line: 2875, col: 10, offset: 90978},
+																		run: (*parser).callonDocumentHeader152,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2875, col: 10, offset: 90978},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91376},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonDocumentHeader146,
-																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91150},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91150},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91157},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91166},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2897, col: 8, offset: 91376},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2884, col: 12, offset: 91149},
+																			run: (*parser).callonDocumentHeader155,
+																			expr: &choiceExpr{
+																				pos: position{line: 2884, col: 13, offset: 91150},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 13, offset: 91150},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 20, offset: 91157},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 29, offset: 91166},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91326},
-																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91327,
+																		&notExpr{
+																			pos: position{line: 2894, col: 8, offset: 91326},
+																			expr: &anyMatcher{
+																				line: 2894, col: 9, offset: 91327,
+																			},
 																		},
 																	},
 																},
@@ -16811,109 +16958,126 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 820, col: 33, offset: 26283},
+													run: (*parser).callonDocumentHeader162,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26399},
+													pos:   position{line: 823, col: 5, offset: 26375},
 													label: "content",
 													expr: &zeroOrMoreExpr{
 														pos: position{line: 831, col: 5, offset: 26685},
 														expr: &actionExpr{
 															pos: position{line: 831, col: 6, offset: 26686},
-															run: (*parser).callonDocumentHeader155,
+															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
 																pos: position{line: 831, col: 6, offset: 26686},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 831, col: 6, offset: 26686},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26628},
+																			pos: position{line: 828, col: 29, offset: 26551},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23628},
-																					run: (*parser).callonDocumentHeader159,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23628},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23628},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23639},
-																									run: (*parser).callonDocumentHeader162,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23639},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23639},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 828, col: 29, offset: 26551},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 828, col: 29, offset: 26551},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23515},
+																								run: (*parser).callonDocumentHeader171,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23515},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23515},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23526},
+																												run: (*parser).callonDocumentHeader174,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23526},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23526},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23533},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23533},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23646},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23646},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23617},
+																											expr: &actionExpr{
+																												pos: position{line: 2875, col: 10, offset: 90978},
+																												run: (*parser).callonDocumentHeader180,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2875, col: 10, offset: 90978},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23730},
-																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentHeader168,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90978},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91376},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentHeader171,
-																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91150},
+																										&choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91150},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91157},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91149},
+																													run: (*parser).callonDocumentHeader183,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91150},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91150},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91157},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91166},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91166},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91326},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91327,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91326},
-																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91327,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 828, col: 54, offset: 26576},
+																							run: (*parser).callonDocumentHeader190,
+																						},
 																					},
 																				},
 																				&notExpr{
@@ -16929,10 +17093,10 @@ var g = &grammar{
 																		pos:   position{line: 832, col: 5, offset: 26716},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonDocumentHeader181,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -16941,11 +17105,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonDocumentHeader186,
+																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -16963,7 +17127,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonDocumentHeader190,
+																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -17006,97 +17170,110 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26433},
+													pos: position{line: 824, col: 5, offset: 26409},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26628},
+														pos: position{line: 828, col: 29, offset: 26551},
 														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23628},
-																run: (*parser).callonDocumentHeader199,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23628},
-																	exprs: []interface{}{
-																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23628},
-																			label: "delimiter",
-																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23639},
-																				run: (*parser).callonDocumentHeader202,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23639},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23639},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+															&seqExpr{
+																pos: position{line: 828, col: 29, offset: 26551},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 828, col: 29, offset: 26551},
+																		label: "end",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23515},
+																			run: (*parser).callonDocumentHeader214,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23515},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23515},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23526},
+																							run: (*parser).callonDocumentHeader217,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23526},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23526},
+																										val:        "////",
+																										ignoreCase: false,
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23533},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23533},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
+																									},
+																								},
+																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23646},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23646},
-																								val:        "/",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23617},
+																						expr: &actionExpr{
+																							pos: position{line: 2875, col: 10, offset: 90978},
+																							run: (*parser).callonDocumentHeader223,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2875, col: 10, offset: 90978},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
-																								want:       "\"/\"",
+																								inverted:   false,
 																							},
 																						},
 																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23730},
-																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonDocumentHeader208,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90978},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91376},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonDocumentHeader211,
-																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91150},
+																					&choiceExpr{
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91150},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91157},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																							&actionExpr{
+																								pos: position{line: 2884, col: 12, offset: 91149},
+																								run: (*parser).callonDocumentHeader226,
+																								expr: &choiceExpr{
+																									pos: position{line: 2884, col: 13, offset: 91150},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 13, offset: 91150},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 20, offset: 91157},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 29, offset: 91166},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91166},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&notExpr{
+																								pos: position{line: 2894, col: 8, offset: 91326},
+																								expr: &anyMatcher{
+																									line: 2894, col: 9, offset: 91327,
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91326},
-																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91327,
-																					},
-																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 828, col: 54, offset: 26576},
+																		run: (*parser).callonDocumentHeader233,
+																	},
 																},
 															},
 															&notExpr{
@@ -17121,7 +17298,7 @@ var g = &grammar{
 								pos: position{line: 1107, col: 24, offset: 34090},
 								expr: &actionExpr{
 									pos: position{line: 1118, col: 5, offset: 34465},
-									run: (*parser).callonDocumentHeader222,
+									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
 										pos: position{line: 1118, col: 5, offset: 34465},
 										exprs: []interface{}{
@@ -17139,7 +17316,7 @@ var g = &grammar{
 												label: "authors",
 												expr: &actionExpr{
 													pos: position{line: 1125, col: 20, offset: 34730},
-													run: (*parser).callonDocumentHeader227,
+													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
 														pos: position{line: 1125, col: 20, offset: 34730},
 														exprs: []interface{}{
@@ -17147,7 +17324,7 @@ var g = &grammar{
 																pos: position{line: 1125, col: 20, offset: 34730},
 																expr: &actionExpr{
 																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonDocumentHeader230,
+																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
@@ -17164,7 +17341,7 @@ var g = &grammar{
 																	pos: position{line: 1125, col: 36, offset: 34746},
 																	expr: &actionExpr{
 																		pos: position{line: 1130, col: 5, offset: 34859},
-																		run: (*parser).callonDocumentHeader234,
+																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
 																			pos: position{line: 1130, col: 5, offset: 34859},
 																			exprs: []interface{}{
@@ -17175,7 +17352,7 @@ var g = &grammar{
 																						pos: position{line: 1130, col: 14, offset: 34868},
 																						expr: &actionExpr{
 																							pos: position{line: 1141, col: 5, offset: 35248},
-																							run: (*parser).callonDocumentHeader238,
+																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
 																								pos: position{line: 1141, col: 5, offset: 35248},
 																								exprs: []interface{}{
@@ -17184,7 +17361,7 @@ var g = &grammar{
 																										label: "part1",
 																										expr: &actionExpr{
 																											pos: position{line: 1141, col: 12, offset: 35255},
-																											run: (*parser).callonDocumentHeader241,
+																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1141, col: 12, offset: 35255},
 																												expr: &charClassMatcher{
@@ -17201,7 +17378,7 @@ var g = &grammar{
 																										pos: position{line: 1144, col: 5, offset: 35335},
 																										expr: &actionExpr{
 																											pos: position{line: 2875, col: 10, offset: 90978},
-																											run: (*parser).callonDocumentHeader245,
+																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
@@ -17218,7 +17395,7 @@ var g = &grammar{
 																											pos: position{line: 1145, col: 11, offset: 35352},
 																											expr: &actionExpr{
 																												pos: position{line: 1145, col: 12, offset: 35353},
-																												run: (*parser).callonDocumentHeader249,
+																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1145, col: 12, offset: 35353},
 																													expr: &charClassMatcher{
@@ -17236,7 +17413,7 @@ var g = &grammar{
 																										pos: position{line: 1148, col: 5, offset: 35434},
 																										expr: &actionExpr{
 																											pos: position{line: 2875, col: 10, offset: 90978},
-																											run: (*parser).callonDocumentHeader253,
+																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
@@ -17253,7 +17430,7 @@ var g = &grammar{
 																											pos: position{line: 1149, col: 11, offset: 35451},
 																											expr: &actionExpr{
 																												pos: position{line: 1149, col: 12, offset: 35452},
-																												run: (*parser).callonDocumentHeader257,
+																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1149, col: 12, offset: 35452},
 																													expr: &charClassMatcher{
@@ -17271,7 +17448,7 @@ var g = &grammar{
 																										pos: position{line: 1152, col: 5, offset: 35531},
 																										expr: &actionExpr{
 																											pos: position{line: 2875, col: 10, offset: 90978},
-																											run: (*parser).callonDocumentHeader261,
+																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
@@ -17293,7 +17470,7 @@ var g = &grammar{
 																						pos: position{line: 1130, col: 46, offset: 34900},
 																						expr: &actionExpr{
 																							pos: position{line: 1158, col: 5, offset: 35653},
-																							run: (*parser).callonDocumentHeader265,
+																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
 																								pos: position{line: 1158, col: 5, offset: 35653},
 																								exprs: []interface{}{
@@ -17314,7 +17491,7 @@ var g = &grammar{
 																										label: "email",
 																										expr: &actionExpr{
 																											pos: position{line: 1160, col: 12, offset: 35681},
-																											run: (*parser).callonDocumentHeader271,
+																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1160, col: 13, offset: 35682},
 																												expr: &charClassMatcher{
@@ -17342,7 +17519,7 @@ var g = &grammar{
 																					pos: position{line: 1130, col: 69, offset: 34923},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonDocumentHeader276,
+																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -17365,7 +17542,7 @@ var g = &grammar{
 																					pos: position{line: 1130, col: 81, offset: 34935},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonDocumentHeader281,
+																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -17377,7 +17554,7 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1131, col: 5, offset: 34947},
-																					run: (*parser).callonDocumentHeader283,
+																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
 																		},
@@ -17389,7 +17566,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonDocumentHeader285,
+																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
 																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
@@ -17433,7 +17610,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2482, col: 22, offset: 79892},
-															run: (*parser).callonDocumentHeader294,
+															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
 																pos: position{line: 2482, col: 22, offset: 79892},
 																exprs: []interface{}{
@@ -17457,7 +17634,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2821, col: 13, offset: 89504},
-																			run: (*parser).callonDocumentHeader300,
+																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
 																				pos: position{line: 2821, col: 13, offset: 89504},
 																				expr: &charClassMatcher{
@@ -17475,7 +17652,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonDocumentHeader304,
+																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -17512,93 +17689,97 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26368},
-															run: (*parser).callonDocumentHeader311,
+															pos: position{line: 820, col: 5, offset: 26255},
+															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26368},
+																pos: position{line: 820, col: 5, offset: 26255},
 																exprs: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23628},
-																		run: (*parser).callonDocumentHeader313,
-																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23628},
-																			exprs: []interface{}{
-																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23628},
-																					label: "delimiter",
-																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23639},
-																						run: (*parser).callonDocumentHeader316,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23639},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23639},
-																									val:        "////",
-																									ignoreCase: false,
-																									want:       "\"////\"",
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23646},
-																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23646},
-																										val:        "/",
+																	&labeledExpr{
+																		pos:   position{line: 820, col: 5, offset: 26255},
+																		label: "start",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23515},
+																			run: (*parser).callonDocumentHeader330,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23515},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23515},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23526},
+																							run: (*parser).callonDocumentHeader333,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23526},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23526},
+																										val:        "////",
 																										ignoreCase: false,
-																										want:       "\"/\"",
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23533},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23533},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23730},
-																					expr: &actionExpr{
-																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonDocumentHeader322,
-																						expr: &charClassMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 90978},
-																							val:        "[\\t ]",
-																							chars:      []rune{'\t', ' '},
-																							ignoreCase: false,
-																							inverted:   false,
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23617},
+																						expr: &actionExpr{
+																							pos: position{line: 2875, col: 10, offset: 90978},
+																							run: (*parser).callonDocumentHeader339,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2875, col: 10, offset: 90978},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
 																						},
 																					},
-																				},
-																				&choiceExpr{
-																					pos: position{line: 2897, col: 8, offset: 91376},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonDocumentHeader325,
-																							expr: &choiceExpr{
-																								pos: position{line: 2884, col: 13, offset: 91150},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2884, col: 13, offset: 91150},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2884, col: 20, offset: 91157},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2884, col: 29, offset: 91166},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																					&choiceExpr{
+																						pos: position{line: 2897, col: 8, offset: 91376},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 2884, col: 12, offset: 91149},
+																								run: (*parser).callonDocumentHeader342,
+																								expr: &choiceExpr{
+																									pos: position{line: 2884, col: 13, offset: 91150},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 13, offset: 91150},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 20, offset: 91157},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 29, offset: 91166},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
 																									},
 																								},
 																							},
-																						},
-																						&notExpr{
-																							pos: position{line: 2894, col: 8, offset: 91326},
-																							expr: &anyMatcher{
-																								line: 2894, col: 9, offset: 91327,
+																							&notExpr{
+																								pos: position{line: 2894, col: 8, offset: 91326},
+																								expr: &anyMatcher{
+																									line: 2894, col: 9, offset: 91327,
+																								},
 																							},
 																						},
 																					},
@@ -17606,109 +17787,126 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 820, col: 33, offset: 26283},
+																		run: (*parser).callonDocumentHeader349,
+																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26399},
+																		pos:   position{line: 823, col: 5, offset: 26375},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
 																			pos: position{line: 831, col: 5, offset: 26685},
 																			expr: &actionExpr{
 																				pos: position{line: 831, col: 6, offset: 26686},
-																				run: (*parser).callonDocumentHeader334,
+																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
 																					pos: position{line: 831, col: 6, offset: 26686},
 																					exprs: []interface{}{
 																						&notExpr{
 																							pos: position{line: 831, col: 6, offset: 26686},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26628},
+																								pos: position{line: 828, col: 29, offset: 26551},
 																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23628},
-																										run: (*parser).callonDocumentHeader338,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23628},
-																											exprs: []interface{}{
-																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23628},
-																													label: "delimiter",
-																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23639},
-																														run: (*parser).callonDocumentHeader341,
-																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23639},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23639},
-																																	val:        "////",
-																																	ignoreCase: false,
-																																	want:       "\"////\"",
+																									&seqExpr{
+																										pos: position{line: 828, col: 29, offset: 26551},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 828, col: 29, offset: 26551},
+																												label: "end",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 5, offset: 23515},
+																													run: (*parser).callonDocumentHeader358,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 5, offset: 23515},
+																														exprs: []interface{}{
+																															&labeledExpr{
+																																pos:   position{line: 740, col: 5, offset: 23515},
+																																label: "delimiter",
+																																expr: &actionExpr{
+																																	pos: position{line: 740, col: 16, offset: 23526},
+																																	run: (*parser).callonDocumentHeader361,
+																																	expr: &seqExpr{
+																																		pos: position{line: 740, col: 16, offset: 23526},
+																																		exprs: []interface{}{
+																																			&litMatcher{
+																																				pos:        position{line: 740, col: 16, offset: 23526},
+																																				val:        "////",
+																																				ignoreCase: false,
+																																				want:       "\"////\"",
+																																			},
+																																			&zeroOrMoreExpr{
+																																				pos: position{line: 740, col: 23, offset: 23533},
+																																				expr: &litMatcher{
+																																					pos:        position{line: 740, col: 23, offset: 23533},
+																																					val:        "/",
+																																					ignoreCase: false,
+																																					want:       "\"/\"",
+																																				},
+																																			},
+																																		},
+																																	},
 																																},
-																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23646},
-																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23646},
-																																		val:        "/",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 742, col: 8, offset: 23617},
+																																expr: &actionExpr{
+																																	pos: position{line: 2875, col: 10, offset: 90978},
+																																	run: (*parser).callonDocumentHeader367,
+																																	expr: &charClassMatcher{
+																																		pos:        position{line: 2875, col: 10, offset: 90978},
+																																		val:        "[\\t ]",
+																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
-																																		want:       "\"/\"",
+																																		inverted:   false,
 																																	},
 																																},
 																															},
-																														},
-																													},
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23730},
-																													expr: &actionExpr{
-																														pos: position{line: 2875, col: 10, offset: 90978},
-																														run: (*parser).callonDocumentHeader347,
-																														expr: &charClassMatcher{
-																															pos:        position{line: 2875, col: 10, offset: 90978},
-																															val:        "[\\t ]",
-																															chars:      []rune{'\t', ' '},
-																															ignoreCase: false,
-																															inverted:   false,
-																														},
-																													},
-																												},
-																												&choiceExpr{
-																													pos: position{line: 2897, col: 8, offset: 91376},
-																													alternatives: []interface{}{
-																														&actionExpr{
-																															pos: position{line: 2884, col: 12, offset: 91149},
-																															run: (*parser).callonDocumentHeader350,
-																															expr: &choiceExpr{
-																																pos: position{line: 2884, col: 13, offset: 91150},
+																															&choiceExpr{
+																																pos: position{line: 2897, col: 8, offset: 91376},
 																																alternatives: []interface{}{
-																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 13, offset: 91150},
-																																		val:        "\n",
-																																		ignoreCase: false,
-																																		want:       "\"\\n\"",
-																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 20, offset: 91157},
-																																		val:        "\r\n",
-																																		ignoreCase: false,
-																																		want:       "\"\\r\\n\"",
+																																	&actionExpr{
+																																		pos: position{line: 2884, col: 12, offset: 91149},
+																																		run: (*parser).callonDocumentHeader370,
+																																		expr: &choiceExpr{
+																																			pos: position{line: 2884, col: 13, offset: 91150},
+																																			alternatives: []interface{}{
+																																				&litMatcher{
+																																					pos:        position{line: 2884, col: 13, offset: 91150},
+																																					val:        "\n",
+																																					ignoreCase: false,
+																																					want:       "\"\\n\"",
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2884, col: 20, offset: 91157},
+																																					val:        "\r\n",
+																																					ignoreCase: false,
+																																					want:       "\"\\r\\n\"",
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2884, col: 29, offset: 91166},
+																																					val:        "\r",
+																																					ignoreCase: false,
+																																					want:       "\"\\r\"",
+																																				},
+																																			},
+																																		},
 																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2884, col: 29, offset: 91166},
-																																		val:        "\r",
-																																		ignoreCase: false,
-																																		want:       "\"\\r\"",
+																																	&notExpr{
+																																		pos: position{line: 2894, col: 8, offset: 91326},
+																																		expr: &anyMatcher{
+																																			line: 2894, col: 9, offset: 91327,
+																																		},
 																																	},
 																																},
 																															},
 																														},
-																														&notExpr{
-																															pos: position{line: 2894, col: 8, offset: 91326},
-																															expr: &anyMatcher{
-																																line: 2894, col: 9, offset: 91327,
-																															},
-																														},
 																													},
 																												},
 																											},
+																											&andCodeExpr{
+																												pos: position{line: 828, col: 54, offset: 26576},
+																												run: (*parser).callonDocumentHeader377,
+																											},
 																										},
 																									},
 																									&notExpr{
@@ -17724,10 +17922,10 @@ var g = &grammar{
 																							pos:   position{line: 832, col: 5, offset: 26716},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26132},
-																								run: (*parser).callonDocumentHeader360,
+																								pos: position{line: 811, col: 5, offset: 26019},
+																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26132},
+																									pos: position{line: 811, col: 5, offset: 26019},
 																									exprs: []interface{}{
 																										&andExpr{
 																											pos: position{line: 2892, col: 11, offset: 91312},
@@ -17736,11 +17934,11 @@ var g = &grammar{
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26207},
+																											pos:   position{line: 812, col: 5, offset: 26094},
 																											label: "content",
 																											expr: &actionExpr{
 																												pos: position{line: 2821, col: 13, offset: 89504},
-																												run: (*parser).callonDocumentHeader365,
+																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
 																													pos: position{line: 2821, col: 13, offset: 89504},
 																													expr: &charClassMatcher{
@@ -17758,7 +17956,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonDocumentHeader369,
+																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -17801,97 +17999,110 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26433},
+																		pos: position{line: 824, col: 5, offset: 26409},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26628},
+																			pos: position{line: 828, col: 29, offset: 26551},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23628},
-																					run: (*parser).callonDocumentHeader378,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23628},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23628},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23639},
-																									run: (*parser).callonDocumentHeader381,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23639},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23639},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 828, col: 29, offset: 26551},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 828, col: 29, offset: 26551},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23515},
+																								run: (*parser).callonDocumentHeader401,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23515},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23515},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23526},
+																												run: (*parser).callonDocumentHeader404,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23526},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23526},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23533},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23533},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23646},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23646},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23617},
+																											expr: &actionExpr{
+																												pos: position{line: 2875, col: 10, offset: 90978},
+																												run: (*parser).callonDocumentHeader410,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2875, col: 10, offset: 90978},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23730},
-																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonDocumentHeader387,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90978},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91376},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonDocumentHeader390,
-																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91150},
+																										&choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91150},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91157},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91149},
+																													run: (*parser).callonDocumentHeader413,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91150},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91150},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91157},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91166},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91166},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91326},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91327,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91326},
-																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91327,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 828, col: 54, offset: 26576},
+																							run: (*parser).callonDocumentHeader420,
+																						},
 																					},
 																				},
 																				&notExpr{
@@ -17916,7 +18127,7 @@ var g = &grammar{
 													pos: position{line: 1121, col: 14, offset: 34588},
 													expr: &actionExpr{
 														pos: position{line: 1169, col: 21, offset: 35931},
-														run: (*parser).callonDocumentHeader401,
+														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
 															pos: position{line: 1169, col: 21, offset: 35931},
 															exprs: []interface{}{
@@ -17924,7 +18135,7 @@ var g = &grammar{
 																	pos: position{line: 1169, col: 21, offset: 35931},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonDocumentHeader404,
+																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -17951,7 +18162,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1170, col: 10, offset: 35963},
-																				run: (*parser).callonDocumentHeader410,
+																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
 																					pos: position{line: 1170, col: 10, offset: 35963},
 																					exprs: []interface{}{
@@ -17963,7 +18174,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 1179, col: 27, offset: 36480},
-																										run: (*parser).callonDocumentHeader414,
+																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
 																											pos: position{line: 1179, col: 27, offset: 36480},
 																											exprs: []interface{}{
@@ -17995,7 +18206,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1181, col: 5, offset: 36539},
-																										run: (*parser).callonDocumentHeader420,
+																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
 																											pos: position{line: 1181, col: 5, offset: 36539},
 																											exprs: []interface{}{
@@ -18029,7 +18240,7 @@ var g = &grammar{
 																													pos: position{line: 1181, col: 28, offset: 36562},
 																													expr: &actionExpr{
 																														pos: position{line: 2875, col: 10, offset: 90978},
-																														run: (*parser).callonDocumentHeader428,
+																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
 																															pos:        position{line: 2875, col: 10, offset: 90978},
 																															val:        "[\\t ]",
@@ -18070,7 +18281,7 @@ var g = &grammar{
 																								pos: position{line: 1170, col: 58, offset: 36011},
 																								expr: &actionExpr{
 																									pos: position{line: 1185, col: 25, offset: 36634},
-																									run: (*parser).callonDocumentHeader436,
+																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1185, col: 25, offset: 36634},
 																										expr: &charClassMatcher{
@@ -18100,7 +18311,7 @@ var g = &grammar{
 																								pos: position{line: 1170, col: 97, offset: 36050},
 																								expr: &actionExpr{
 																									pos: position{line: 1189, col: 27, offset: 36706},
-																									run: (*parser).callonDocumentHeader443,
+																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1189, col: 27, offset: 36706},
 																										expr: &charClassMatcher{
@@ -18119,7 +18330,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1172, col: 15, offset: 36168},
-																				run: (*parser).callonDocumentHeader446,
+																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
 																					pos: position{line: 1172, col: 15, offset: 36168},
 																					exprs: []interface{}{
@@ -18128,7 +18339,7 @@ var g = &grammar{
 																							label: "revdate",
 																							expr: &actionExpr{
 																								pos: position{line: 1185, col: 25, offset: 36634},
-																								run: (*parser).callonDocumentHeader449,
+																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1185, col: 25, offset: 36634},
 																									expr: &charClassMatcher{
@@ -18157,7 +18368,7 @@ var g = &grammar{
 																								pos: position{line: 1172, col: 61, offset: 36214},
 																								expr: &actionExpr{
 																									pos: position{line: 1189, col: 27, offset: 36706},
-																									run: (*parser).callonDocumentHeader456,
+																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1189, col: 27, offset: 36706},
 																										expr: &charClassMatcher{
@@ -18182,7 +18393,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonDocumentHeader460,
+																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -18239,7 +18450,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 360, col: 19, offset: 10954},
-											run: (*parser).callonDocumentHeader471,
+											run: (*parser).callonDocumentHeader495,
 											expr: &seqExpr{
 												pos: position{line: 360, col: 19, offset: 10954},
 												exprs: []interface{}{
@@ -18254,7 +18465,7 @@ var g = &grammar{
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9780},
-															run: (*parser).callonDocumentHeader475,
+															run: (*parser).callonDocumentHeader499,
 															expr: &seqExpr{
 																pos: position{line: 318, col: 18, offset: 9780},
 																exprs: []interface{}{
@@ -18291,7 +18502,7 @@ var g = &grammar{
 														pos: position{line: 360, col: 49, offset: 10984},
 														expr: &actionExpr{
 															pos: position{line: 2875, col: 10, offset: 90978},
-															run: (*parser).callonDocumentHeader482,
+															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
 																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
@@ -18306,7 +18517,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentHeader485,
+																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -18344,7 +18555,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 362, col: 9, offset: 11075},
-											run: (*parser).callonDocumentHeader492,
+											run: (*parser).callonDocumentHeader516,
 											expr: &seqExpr{
 												pos: position{line: 362, col: 9, offset: 11075},
 												exprs: []interface{}{
@@ -18359,7 +18570,7 @@ var g = &grammar{
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9780},
-															run: (*parser).callonDocumentHeader496,
+															run: (*parser).callonDocumentHeader520,
 															expr: &seqExpr{
 																pos: position{line: 318, col: 18, offset: 9780},
 																exprs: []interface{}{
@@ -18396,7 +18607,7 @@ var g = &grammar{
 														pos: position{line: 362, col: 39, offset: 11105},
 														expr: &actionExpr{
 															pos: position{line: 2875, col: 10, offset: 90978},
-															run: (*parser).callonDocumentHeader503,
+															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
 																pos:        position{line: 2875, col: 10, offset: 90978},
 																val:        "[\\t ]",
@@ -18411,7 +18622,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentHeader506,
+																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -18449,7 +18660,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2482, col: 22, offset: 79892},
-											run: (*parser).callonDocumentHeader513,
+											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
 												pos: position{line: 2482, col: 22, offset: 79892},
 												exprs: []interface{}{
@@ -18473,7 +18684,7 @@ var g = &grammar{
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2821, col: 13, offset: 89504},
-															run: (*parser).callonDocumentHeader519,
+															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
 																pos: position{line: 2821, col: 13, offset: 89504},
 																expr: &charClassMatcher{
@@ -18491,7 +18702,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonDocumentHeader523,
+																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -18528,93 +18739,97 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26368},
-											run: (*parser).callonDocumentHeader530,
+											pos: position{line: 820, col: 5, offset: 26255},
+											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26368},
+												pos: position{line: 820, col: 5, offset: 26255},
 												exprs: []interface{}{
-													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23628},
-														run: (*parser).callonDocumentHeader532,
-														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23628},
-															exprs: []interface{}{
-																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23628},
-																	label: "delimiter",
-																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23639},
-																		run: (*parser).callonDocumentHeader535,
-																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23639},
-																			exprs: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23639},
-																					val:        "////",
-																					ignoreCase: false,
-																					want:       "\"////\"",
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23646},
-																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23646},
-																						val:        "/",
+													&labeledExpr{
+														pos:   position{line: 820, col: 5, offset: 26255},
+														label: "start",
+														expr: &actionExpr{
+															pos: position{line: 740, col: 5, offset: 23515},
+															run: (*parser).callonDocumentHeader557,
+															expr: &seqExpr{
+																pos: position{line: 740, col: 5, offset: 23515},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 740, col: 5, offset: 23515},
+																		label: "delimiter",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 16, offset: 23526},
+																			run: (*parser).callonDocumentHeader560,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 16, offset: 23526},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 740, col: 16, offset: 23526},
+																						val:        "////",
 																						ignoreCase: false,
-																						want:       "\"/\"",
+																						want:       "\"////\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 740, col: 23, offset: 23533},
+																						expr: &litMatcher{
+																							pos:        position{line: 740, col: 23, offset: 23533},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
+																						},
 																					},
 																				},
 																			},
 																		},
 																	},
-																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23730},
-																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonDocumentHeader541,
-																		expr: &charClassMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 90978},
-																			val:        "[\\t ]",
-																			chars:      []rune{'\t', ' '},
-																			ignoreCase: false,
-																			inverted:   false,
+																	&zeroOrMoreExpr{
+																		pos: position{line: 742, col: 8, offset: 23617},
+																		expr: &actionExpr{
+																			pos: position{line: 2875, col: 10, offset: 90978},
+																			run: (*parser).callonDocumentHeader566,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2875, col: 10, offset: 90978},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
 																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2897, col: 8, offset: 91376},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonDocumentHeader544,
-																			expr: &choiceExpr{
-																				pos: position{line: 2884, col: 13, offset: 91150},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91150},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2884, col: 20, offset: 91157},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2884, col: 29, offset: 91166},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																	&choiceExpr{
+																		pos: position{line: 2897, col: 8, offset: 91376},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2884, col: 12, offset: 91149},
+																				run: (*parser).callonDocumentHeader569,
+																				expr: &choiceExpr{
+																					pos: position{line: 2884, col: 13, offset: 91150},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2884, col: 13, offset: 91150},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2884, col: 20, offset: 91157},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2884, col: 29, offset: 91166},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
 																					},
 																				},
 																			},
-																		},
-																		&notExpr{
-																			pos: position{line: 2894, col: 8, offset: 91326},
-																			expr: &anyMatcher{
-																				line: 2894, col: 9, offset: 91327,
+																			&notExpr{
+																				pos: position{line: 2894, col: 8, offset: 91326},
+																				expr: &anyMatcher{
+																					line: 2894, col: 9, offset: 91327,
+																				},
 																			},
 																		},
 																	},
@@ -18622,109 +18837,126 @@ var g = &grammar{
 															},
 														},
 													},
+													&andCodeExpr{
+														pos: position{line: 820, col: 33, offset: 26283},
+														run: (*parser).callonDocumentHeader576,
+													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26399},
+														pos:   position{line: 823, col: 5, offset: 26375},
 														label: "content",
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 831, col: 5, offset: 26685},
 															expr: &actionExpr{
 																pos: position{line: 831, col: 6, offset: 26686},
-																run: (*parser).callonDocumentHeader553,
+																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
 																	pos: position{line: 831, col: 6, offset: 26686},
 																	exprs: []interface{}{
 																		&notExpr{
 																			pos: position{line: 831, col: 6, offset: 26686},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26628},
+																				pos: position{line: 828, col: 29, offset: 26551},
 																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23628},
-																						run: (*parser).callonDocumentHeader557,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23628},
-																							exprs: []interface{}{
-																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23628},
-																									label: "delimiter",
-																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23639},
-																										run: (*parser).callonDocumentHeader560,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23639},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23639},
-																													val:        "////",
-																													ignoreCase: false,
-																													want:       "\"////\"",
+																					&seqExpr{
+																						pos: position{line: 828, col: 29, offset: 26551},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 828, col: 29, offset: 26551},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 5, offset: 23515},
+																									run: (*parser).callonDocumentHeader585,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 5, offset: 23515},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23515},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23526},
+																													run: (*parser).callonDocumentHeader588,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23526},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23526},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23533},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23533},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
 																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23646},
-																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23646},
-																														val:        "/",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 742, col: 8, offset: 23617},
+																												expr: &actionExpr{
+																													pos: position{line: 2875, col: 10, offset: 90978},
+																													run: (*parser).callonDocumentHeader594,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2875, col: 10, offset: 90978},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
-																														want:       "\"/\"",
+																														inverted:   false,
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23730},
-																									expr: &actionExpr{
-																										pos: position{line: 2875, col: 10, offset: 90978},
-																										run: (*parser).callonDocumentHeader566,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 10, offset: 90978},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																								&choiceExpr{
-																									pos: position{line: 2897, col: 8, offset: 91376},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2884, col: 12, offset: 91149},
-																											run: (*parser).callonDocumentHeader569,
-																											expr: &choiceExpr{
-																												pos: position{line: 2884, col: 13, offset: 91150},
+																											&choiceExpr{
+																												pos: position{line: 2897, col: 8, offset: 91376},
 																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2884, col: 13, offset: 91150},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2884, col: 20, offset: 91157},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																													&actionExpr{
+																														pos: position{line: 2884, col: 12, offset: 91149},
+																														run: (*parser).callonDocumentHeader597,
+																														expr: &choiceExpr{
+																															pos: position{line: 2884, col: 13, offset: 91150},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2884, col: 13, offset: 91150},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2884, col: 20, offset: 91157},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2884, col: 29, offset: 91166},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2884, col: 29, offset: 91166},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&notExpr{
+																														pos: position{line: 2894, col: 8, offset: 91326},
+																														expr: &anyMatcher{
+																															line: 2894, col: 9, offset: 91327,
+																														},
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2894, col: 8, offset: 91326},
-																											expr: &anyMatcher{
-																												line: 2894, col: 9, offset: 91327,
-																											},
-																										},
 																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 828, col: 54, offset: 26576},
+																								run: (*parser).callonDocumentHeader604,
+																							},
 																						},
 																					},
 																					&notExpr{
@@ -18740,10 +18972,10 @@ var g = &grammar{
 																			pos:   position{line: 832, col: 5, offset: 26716},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
-																				run: (*parser).callonDocumentHeader579,
+																				pos: position{line: 811, col: 5, offset: 26019},
+																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26132},
+																					pos: position{line: 811, col: 5, offset: 26019},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2892, col: 11, offset: 91312},
@@ -18752,11 +18984,11 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26207},
+																							pos:   position{line: 812, col: 5, offset: 26094},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
-																								run: (*parser).callonDocumentHeader584,
+																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
 																									pos: position{line: 2821, col: 13, offset: 89504},
 																									expr: &charClassMatcher{
@@ -18774,7 +19006,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonDocumentHeader588,
+																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -18817,97 +19049,110 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26433},
+														pos: position{line: 824, col: 5, offset: 26409},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26628},
+															pos: position{line: 828, col: 29, offset: 26551},
 															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23628},
-																	run: (*parser).callonDocumentHeader597,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23628},
-																		exprs: []interface{}{
-																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23628},
-																				label: "delimiter",
-																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23639},
-																					run: (*parser).callonDocumentHeader600,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23639},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23639},
-																								val:        "////",
-																								ignoreCase: false,
-																								want:       "\"////\"",
+																&seqExpr{
+																	pos: position{line: 828, col: 29, offset: 26551},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 828, col: 29, offset: 26551},
+																			label: "end",
+																			expr: &actionExpr{
+																				pos: position{line: 740, col: 5, offset: 23515},
+																				run: (*parser).callonDocumentHeader628,
+																				expr: &seqExpr{
+																					pos: position{line: 740, col: 5, offset: 23515},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23515},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23526},
+																								run: (*parser).callonDocumentHeader631,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23526},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23526},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23533},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23533},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
 																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23646},
-																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23646},
-																									val:        "/",
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 742, col: 8, offset: 23617},
+																							expr: &actionExpr{
+																								pos: position{line: 2875, col: 10, offset: 90978},
+																								run: (*parser).callonDocumentHeader637,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2875, col: 10, offset: 90978},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
-																									want:       "\"/\"",
+																									inverted:   false,
 																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23730},
-																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 10, offset: 90978},
-																					run: (*parser).callonDocumentHeader606,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 10, offset: 90978},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2897, col: 8, offset: 91376},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonDocumentHeader609,
-																						expr: &choiceExpr{
-																							pos: position{line: 2884, col: 13, offset: 91150},
+																						&choiceExpr{
+																							pos: position{line: 2897, col: 8, offset: 91376},
 																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2884, col: 13, offset: 91150},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2884, col: 20, offset: 91157},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
+																								&actionExpr{
+																									pos: position{line: 2884, col: 12, offset: 91149},
+																									run: (*parser).callonDocumentHeader640,
+																									expr: &choiceExpr{
+																										pos: position{line: 2884, col: 13, offset: 91150},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 13, offset: 91150},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 20, offset: 91157},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 29, offset: 91166},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 2884, col: 29, offset: 91166},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
+																								&notExpr{
+																									pos: position{line: 2894, col: 8, offset: 91326},
+																									expr: &anyMatcher{
+																										line: 2894, col: 9, offset: 91327,
+																									},
 																								},
 																							},
 																						},
 																					},
-																					&notExpr{
-																						pos: position{line: 2894, col: 8, offset: 91326},
-																						expr: &anyMatcher{
-																							line: 2894, col: 9, offset: 91327,
-																						},
-																					},
 																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 828, col: 54, offset: 26576},
+																			run: (*parser).callonDocumentHeader647,
+																		},
 																	},
 																},
 																&notExpr{
@@ -28574,30 +28819,30 @@ var g = &grammar{
 																		pos: position{line: 726, col: 9, offset: 23136},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23628},
+																				pos: position{line: 740, col: 5, offset: 23515},
 																				run: (*parser).callonExtraListElement648,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23628},
+																					pos: position{line: 740, col: 5, offset: 23515},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23628},
+																							pos:   position{line: 740, col: 5, offset: 23515},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23639},
+																								pos: position{line: 740, col: 16, offset: 23526},
 																								run: (*parser).callonExtraListElement651,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23639},
+																									pos: position{line: 740, col: 16, offset: 23526},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23639},
+																											pos:        position{line: 740, col: 16, offset: 23526},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23646},
+																											pos: position{line: 740, col: 23, offset: 23533},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23646},
+																												pos:        position{line: 740, col: 23, offset: 23533},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28608,7 +28853,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23730},
+																							pos: position{line: 742, col: 8, offset: 23617},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
 																								run: (*parser).callonExtraListElement657,
@@ -28663,44 +28908,119 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23876},
-																				run: (*parser).callonExtraListElement667,
+																				pos: position{line: 747, col: 5, offset: 23763},
+																				run: (*parser).callonExtraListElement667,
+																				expr: &seqExpr{
+																					pos: position{line: 747, col: 5, offset: 23763},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 747, col: 5, offset: 23763},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 747, col: 16, offset: 23774},
+																								run: (*parser).callonExtraListElement670,
+																								expr: &seqExpr{
+																									pos: position{line: 747, col: 16, offset: 23774},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 747, col: 16, offset: 23774},
+																											val:        "====",
+																											ignoreCase: false,
+																											want:       "\"====\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 747, col: 23, offset: 23781},
+																											expr: &litMatcher{
+																												pos:        position{line: 747, col: 23, offset: 23781},
+																												val:        "=",
+																												ignoreCase: false,
+																												want:       "\"=\"",
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 749, col: 8, offset: 23865},
+																							expr: &actionExpr{
+																								pos: position{line: 2875, col: 10, offset: 90978},
+																								run: (*parser).callonExtraListElement676,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2875, col: 10, offset: 90978},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																						&choiceExpr{
+																							pos: position{line: 2897, col: 8, offset: 91376},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2884, col: 12, offset: 91149},
+																									run: (*parser).callonExtraListElement679,
+																									expr: &choiceExpr{
+																										pos: position{line: 2884, col: 13, offset: 91150},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 13, offset: 91150},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 20, offset: 91157},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2884, col: 29, offset: 91166},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2894, col: 8, offset: 91326},
+																									expr: &anyMatcher{
+																										line: 2894, col: 9, offset: 91327,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 776, col: 5, offset: 24792},
+																				run: (*parser).callonExtraListElement686,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23876},
+																					pos: position{line: 776, col: 5, offset: 24792},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23876},
+																							pos:   position{line: 776, col: 5, offset: 24792},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23887},
-																								run: (*parser).callonExtraListElement670,
-																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23887},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23887},
-																											val:        "====",
-																											ignoreCase: false,
-																											want:       "\"====\"",
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23894},
-																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23894},
-																												val:        "=",
-																												ignoreCase: false,
-																												want:       "\"=\"",
-																											},
-																										},
-																									},
+																								pos: position{line: 776, col: 16, offset: 24803},
+																								run: (*parser).callonExtraListElement689,
+																								expr: &litMatcher{
+																									pos:        position{line: 776, col: 16, offset: 24803},
+																									val:        "--",
+																									ignoreCase: false,
+																									want:       "\"--\"",
 																								},
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23978},
+																							pos: position{line: 778, col: 8, offset: 24880},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement676,
+																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28715,7 +29035,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement679,
+																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28752,27 +29072,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24364},
-																				run: (*parser).callonExtraListElement686,
+																				pos: position{line: 760, col: 26, offset: 24251},
+																				run: (*parser).callonExtraListElement702,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24364},
+																					pos: position{line: 760, col: 26, offset: 24251},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24364},
+																							pos:        position{line: 760, col: 26, offset: 24251},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24370},
+																							pos:   position{line: 760, col: 32, offset: 24257},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24500},
-																								run: (*parser).callonExtraListElement690,
+																								pos: position{line: 764, col: 13, offset: 24387},
+																								run: (*parser).callonExtraListElement706,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24501},
+																									pos: position{line: 764, col: 14, offset: 24388},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24501},
+																										pos:        position{line: 764, col: 14, offset: 24388},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -28782,10 +29102,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24390},
+																							pos: position{line: 760, col: 52, offset: 24277},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement694,
+																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28800,7 +29120,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement697,
+																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28837,30 +29157,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24123},
-																				run: (*parser).callonExtraListElement704,
+																				pos: position{line: 754, col: 5, offset: 24010},
+																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24123},
+																					pos: position{line: 754, col: 5, offset: 24010},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24123},
+																							pos:   position{line: 754, col: 5, offset: 24010},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24134},
-																								run: (*parser).callonExtraListElement707,
+																								pos: position{line: 754, col: 16, offset: 24021},
+																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24134},
+																									pos: position{line: 754, col: 16, offset: 24021},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24134},
+																											pos:        position{line: 754, col: 16, offset: 24021},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24140},
+																											pos: position{line: 754, col: 22, offset: 24027},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24140},
+																												pos:        position{line: 754, col: 22, offset: 24027},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28871,10 +29191,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24224},
+																							pos: position{line: 756, col: 8, offset: 24111},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement713,
+																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28889,7 +29209,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement716,
+																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -28926,30 +29246,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24660},
-																				run: (*parser).callonExtraListElement723,
+																				pos: position{line: 769, col: 5, offset: 24547},
+																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24660},
+																					pos: position{line: 769, col: 5, offset: 24547},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24660},
+																							pos:   position{line: 769, col: 5, offset: 24547},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24671},
-																								run: (*parser).callonExtraListElement726,
+																								pos: position{line: 769, col: 16, offset: 24558},
+																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24671},
+																									pos: position{line: 769, col: 16, offset: 24558},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24671},
+																											pos:        position{line: 769, col: 16, offset: 24558},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24678},
+																											pos: position{line: 769, col: 23, offset: 24565},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24678},
+																												pos:        position{line: 769, col: 23, offset: 24565},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28960,10 +29280,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24762},
+																							pos: position{line: 771, col: 8, offset: 24649},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement732,
+																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -28978,7 +29298,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement735,
+																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29015,30 +29335,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25136},
-																				run: (*parser).callonExtraListElement742,
+																				pos: position{line: 783, col: 5, offset: 25023},
+																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25136},
+																					pos: position{line: 783, col: 5, offset: 25023},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25136},
+																							pos:   position{line: 783, col: 5, offset: 25023},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25147},
-																								run: (*parser).callonExtraListElement745,
+																								pos: position{line: 783, col: 16, offset: 25034},
+																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25147},
+																									pos: position{line: 783, col: 16, offset: 25034},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25147},
+																											pos:        position{line: 783, col: 16, offset: 25034},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25154},
+																											pos: position{line: 783, col: 23, offset: 25041},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25154},
+																												pos:        position{line: 783, col: 23, offset: 25041},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29049,10 +29369,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25238},
+																							pos: position{line: 785, col: 8, offset: 25125},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement751,
+																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29067,7 +29387,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement754,
+																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29104,30 +29424,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25388},
-																				run: (*parser).callonExtraListElement761,
+																				pos: position{line: 790, col: 5, offset: 25275},
+																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25388},
+																					pos: position{line: 790, col: 5, offset: 25275},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25388},
+																							pos:   position{line: 790, col: 5, offset: 25275},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25399},
-																								run: (*parser).callonExtraListElement764,
+																								pos: position{line: 790, col: 16, offset: 25286},
+																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25399},
+																									pos: position{line: 790, col: 16, offset: 25286},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25399},
+																											pos:        position{line: 790, col: 16, offset: 25286},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25406},
+																											pos: position{line: 790, col: 23, offset: 25293},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25406},
+																												pos:        position{line: 790, col: 23, offset: 25293},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29138,10 +29458,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25490},
+																							pos: position{line: 792, col: 8, offset: 25377},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement770,
+																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29156,7 +29476,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement773,
+																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29193,30 +29513,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25638},
-																				run: (*parser).callonExtraListElement780,
+																				pos: position{line: 797, col: 5, offset: 25525},
+																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25638},
+																					pos: position{line: 797, col: 5, offset: 25525},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25638},
+																							pos:   position{line: 797, col: 5, offset: 25525},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25649},
-																								run: (*parser).callonExtraListElement783,
+																								pos: position{line: 797, col: 16, offset: 25536},
+																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25649},
+																									pos: position{line: 797, col: 16, offset: 25536},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25649},
+																											pos:        position{line: 797, col: 16, offset: 25536},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25656},
+																											pos: position{line: 797, col: 23, offset: 25543},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25656},
+																												pos:        position{line: 797, col: 23, offset: 25543},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29227,10 +29547,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25740},
+																							pos: position{line: 799, col: 8, offset: 25627},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement789,
+																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29245,7 +29565,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement792,
+																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29282,30 +29602,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25884},
-																				run: (*parser).callonExtraListElement799,
+																				pos: position{line: 804, col: 5, offset: 25771},
+																				run: (*parser).callonExtraListElement815,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25884},
+																					pos: position{line: 804, col: 5, offset: 25771},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25884},
+																							pos:   position{line: 804, col: 5, offset: 25771},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25895},
-																								run: (*parser).callonExtraListElement802,
+																								pos: position{line: 804, col: 16, offset: 25782},
+																								run: (*parser).callonExtraListElement818,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25895},
+																									pos: position{line: 804, col: 16, offset: 25782},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25895},
+																											pos:        position{line: 804, col: 16, offset: 25782},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25902},
+																											pos: position{line: 804, col: 23, offset: 25789},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25902},
+																												pos:        position{line: 804, col: 23, offset: 25789},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29316,10 +29636,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25986},
+																							pos: position{line: 806, col: 8, offset: 25873},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonExtraListElement808,
+																								run: (*parser).callonExtraListElement824,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -29334,7 +29654,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonExtraListElement811,
+																									run: (*parser).callonExtraListElement827,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -29382,7 +29702,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2825, col: 14, offset: 89571},
-														run: (*parser).callonExtraListElement819,
+														run: (*parser).callonExtraListElement835,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 2825, col: 14, offset: 89571},
 															expr: &charClassMatcher{
@@ -29400,7 +29720,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonExtraListElement823,
+															run: (*parser).callonExtraListElement839,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -30933,93 +31253,97 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26368},
+										pos: position{line: 820, col: 5, offset: 26255},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26368},
+											pos: position{line: 820, col: 5, offset: 26255},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23628},
-													run: (*parser).callonListContinuationElement298,
-													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23628},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23628},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23639},
-																	run: (*parser).callonListContinuationElement301,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23639},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23639},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23646},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23646},
-																					val:        "/",
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26255},
+													label: "start",
+													expr: &actionExpr{
+														pos: position{line: 740, col: 5, offset: 23515},
+														run: (*parser).callonListContinuationElement299,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23515},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23515},
+																	label: "delimiter",
+																	expr: &actionExpr{
+																		pos: position{line: 740, col: 16, offset: 23526},
+																		run: (*parser).callonListContinuationElement302,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23526},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23526},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23533},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23533},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23730},
-																expr: &actionExpr{
-																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonListContinuationElement307,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 10, offset: 90978},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23617},
+																	expr: &actionExpr{
+																		pos: position{line: 2875, col: 10, offset: 90978},
+																		run: (*parser).callonListContinuationElement308,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2875, col: 10, offset: 90978},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2897, col: 8, offset: 91376},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonListContinuationElement310,
-																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 13, offset: 91150},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 13, offset: 91150},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 20, offset: 91157},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2884, col: 29, offset: 91166},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2897, col: 8, offset: 91376},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2884, col: 12, offset: 91149},
+																			run: (*parser).callonListContinuationElement311,
+																			expr: &choiceExpr{
+																				pos: position{line: 2884, col: 13, offset: 91150},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 13, offset: 91150},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 20, offset: 91157},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2884, col: 29, offset: 91166},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2894, col: 8, offset: 91326},
-																		expr: &anyMatcher{
-																			line: 2894, col: 9, offset: 91327,
+																		&notExpr{
+																			pos: position{line: 2894, col: 8, offset: 91326},
+																			expr: &anyMatcher{
+																				line: 2894, col: 9, offset: 91327,
+																			},
 																		},
 																	},
 																},
@@ -31027,109 +31351,126 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 820, col: 33, offset: 26283},
+													run: (*parser).callonListContinuationElement318,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26399},
+													pos:   position{line: 823, col: 5, offset: 26375},
 													label: "content",
 													expr: &zeroOrMoreExpr{
 														pos: position{line: 831, col: 5, offset: 26685},
 														expr: &actionExpr{
 															pos: position{line: 831, col: 6, offset: 26686},
-															run: (*parser).callonListContinuationElement319,
+															run: (*parser).callonListContinuationElement321,
 															expr: &seqExpr{
 																pos: position{line: 831, col: 6, offset: 26686},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 831, col: 6, offset: 26686},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26628},
+																			pos: position{line: 828, col: 29, offset: 26551},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23628},
-																					run: (*parser).callonListContinuationElement323,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23628},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23628},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23639},
-																									run: (*parser).callonListContinuationElement326,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23639},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23639},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 828, col: 29, offset: 26551},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 828, col: 29, offset: 26551},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23515},
+																								run: (*parser).callonListContinuationElement327,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23515},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23515},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23526},
+																												run: (*parser).callonListContinuationElement330,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23526},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23526},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23533},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23533},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23646},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23646},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23617},
+																											expr: &actionExpr{
+																												pos: position{line: 2875, col: 10, offset: 90978},
+																												run: (*parser).callonListContinuationElement336,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2875, col: 10, offset: 90978},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23730},
-																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonListContinuationElement332,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2875, col: 10, offset: 90978},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2897, col: 8, offset: 91376},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonListContinuationElement335,
-																										expr: &choiceExpr{
-																											pos: position{line: 2884, col: 13, offset: 91150},
+																										&choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91376},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91150},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 20, offset: 91157},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91149},
+																													run: (*parser).callonListContinuationElement339,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91150},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91150},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91157},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91166},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2884, col: 29, offset: 91166},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91326},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91327,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2894, col: 8, offset: 91326},
-																										expr: &anyMatcher{
-																											line: 2894, col: 9, offset: 91327,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 828, col: 54, offset: 26576},
+																							run: (*parser).callonListContinuationElement346,
+																						},
 																					},
 																				},
 																				&notExpr{
@@ -31145,10 +31486,10 @@ var g = &grammar{
 																		pos:   position{line: 832, col: 5, offset: 26716},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement345,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement350,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -31157,11 +31498,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement350,
+																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -31179,7 +31520,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement354,
+																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -31222,97 +31563,110 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26433},
+													pos: position{line: 824, col: 5, offset: 26409},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26628},
+														pos: position{line: 828, col: 29, offset: 26551},
 														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23628},
-																run: (*parser).callonListContinuationElement363,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23628},
-																	exprs: []interface{}{
-																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23628},
-																			label: "delimiter",
-																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23639},
-																				run: (*parser).callonListContinuationElement366,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23639},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23639},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+															&seqExpr{
+																pos: position{line: 828, col: 29, offset: 26551},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 828, col: 29, offset: 26551},
+																		label: "end",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23515},
+																			run: (*parser).callonListContinuationElement370,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23515},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23515},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23526},
+																							run: (*parser).callonListContinuationElement373,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23526},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23526},
+																										val:        "////",
+																										ignoreCase: false,
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23533},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23533},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
+																									},
+																								},
+																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23646},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23646},
-																								val:        "/",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23617},
+																						expr: &actionExpr{
+																							pos: position{line: 2875, col: 10, offset: 90978},
+																							run: (*parser).callonListContinuationElement379,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2875, col: 10, offset: 90978},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
-																								want:       "\"/\"",
+																								inverted:   false,
 																							},
 																						},
 																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23730},
-																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonListContinuationElement372,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 90978},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2897, col: 8, offset: 91376},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonListContinuationElement375,
-																					expr: &choiceExpr{
-																						pos: position{line: 2884, col: 13, offset: 91150},
+																					&choiceExpr{
+																						pos: position{line: 2897, col: 8, offset: 91376},
 																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91150},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 20, offset: 91157},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																							&actionExpr{
+																								pos: position{line: 2884, col: 12, offset: 91149},
+																								run: (*parser).callonListContinuationElement382,
+																								expr: &choiceExpr{
+																									pos: position{line: 2884, col: 13, offset: 91150},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 13, offset: 91150},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 20, offset: 91157},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 29, offset: 91166},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2884, col: 29, offset: 91166},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&notExpr{
+																								pos: position{line: 2894, col: 8, offset: 91326},
+																								expr: &anyMatcher{
+																									line: 2894, col: 9, offset: 91327,
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2894, col: 8, offset: 91326},
-																					expr: &anyMatcher{
-																						line: 2894, col: 9, offset: 91327,
-																					},
-																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 828, col: 54, offset: 26576},
+																		run: (*parser).callonListContinuationElement389,
+																	},
 																},
 															},
 															&notExpr{
@@ -31329,7 +31683,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 840, col: 5, offset: 26869},
-										run: (*parser).callonListContinuationElement384,
+										run: (*parser).callonListContinuationElement392,
 										expr: &seqExpr{
 											pos: position{line: 840, col: 5, offset: 26869},
 											exprs: []interface{}{
@@ -31337,30 +31691,30 @@ var g = &grammar{
 													pos:   position{line: 840, col: 5, offset: 26869},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23876},
-														run: (*parser).callonListContinuationElement387,
+														pos: position{line: 747, col: 5, offset: 23763},
+														run: (*parser).callonListContinuationElement395,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23876},
+															pos: position{line: 747, col: 5, offset: 23763},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23876},
+																	pos:   position{line: 747, col: 5, offset: 23763},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23887},
-																		run: (*parser).callonListContinuationElement390,
+																		pos: position{line: 747, col: 16, offset: 23774},
+																		run: (*parser).callonListContinuationElement398,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23887},
+																			pos: position{line: 747, col: 16, offset: 23774},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23887},
+																					pos:        position{line: 747, col: 16, offset: 23774},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23894},
+																					pos: position{line: 747, col: 23, offset: 23781},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23894},
+																						pos:        position{line: 747, col: 23, offset: 23781},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31371,10 +31725,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23978},
+																	pos: position{line: 749, col: 8, offset: 23865},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement396,
+																		run: (*parser).callonListContinuationElement404,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -31389,7 +31743,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement399,
+																			run: (*parser).callonListContinuationElement407,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -31428,7 +31782,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 841, col: 5, offset: 26908},
-													run: (*parser).callonListContinuationElement406,
+													run: (*parser).callonListContinuationElement414,
 												},
 												&labeledExpr{
 													pos:   position{line: 844, col: 5, offset: 27000},
@@ -31437,7 +31791,7 @@ var g = &grammar{
 														pos: position{line: 859, col: 4, offset: 27397},
 														expr: &actionExpr{
 															pos: position{line: 859, col: 5, offset: 27398},
-															run: (*parser).callonListContinuationElement409,
+															run: (*parser).callonListContinuationElement417,
 															expr: &seqExpr{
 																pos: position{line: 859, col: 5, offset: 27398},
 																exprs: []interface{}{
@@ -31453,30 +31807,30 @@ var g = &grammar{
 																							pos:   position{line: 852, col: 5, offset: 27240},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23876},
-																								run: (*parser).callonListContinuationElement415,
+																								pos: position{line: 747, col: 5, offset: 23763},
+																								run: (*parser).callonListContinuationElement423,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23876},
+																									pos: position{line: 747, col: 5, offset: 23763},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23876},
+																											pos:   position{line: 747, col: 5, offset: 23763},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23887},
-																												run: (*parser).callonListContinuationElement418,
+																												pos: position{line: 747, col: 16, offset: 23774},
+																												run: (*parser).callonListContinuationElement426,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23887},
+																													pos: position{line: 747, col: 16, offset: 23774},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23887},
+																															pos:        position{line: 747, col: 16, offset: 23774},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23894},
+																															pos: position{line: 747, col: 23, offset: 23781},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23894},
+																																pos:        position{line: 747, col: 23, offset: 23781},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31487,10 +31841,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23978},
+																											pos: position{line: 749, col: 8, offset: 23865},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement424,
+																												run: (*parser).callonListContinuationElement432,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -31505,7 +31859,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement427,
+																													run: (*parser).callonListContinuationElement435,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -31544,7 +31898,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 853, col: 5, offset: 27271},
-																							run: (*parser).callonListContinuationElement434,
+																							run: (*parser).callonListContinuationElement442,
 																						},
 																					},
 																				},
@@ -31561,10 +31915,10 @@ var g = &grammar{
 																		pos:   position{line: 860, col: 5, offset: 27428},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement438,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement446,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -31573,11 +31927,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement443,
+																							run: (*parser).callonListContinuationElement451,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -31595,7 +31949,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement447,
+																								run: (*parser).callonListContinuationElement455,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -31652,30 +32006,30 @@ var g = &grammar{
 																			pos:   position{line: 852, col: 5, offset: 27240},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23876},
-																				run: (*parser).callonListContinuationElement459,
+																				pos: position{line: 747, col: 5, offset: 23763},
+																				run: (*parser).callonListContinuationElement467,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23876},
+																					pos: position{line: 747, col: 5, offset: 23763},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23876},
+																							pos:   position{line: 747, col: 5, offset: 23763},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23887},
-																								run: (*parser).callonListContinuationElement462,
+																								pos: position{line: 747, col: 16, offset: 23774},
+																								run: (*parser).callonListContinuationElement470,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23887},
+																									pos: position{line: 747, col: 16, offset: 23774},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23887},
+																											pos:        position{line: 747, col: 16, offset: 23774},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23894},
+																											pos: position{line: 747, col: 23, offset: 23781},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23894},
+																												pos:        position{line: 747, col: 23, offset: 23781},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31686,10 +32040,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23978},
+																							pos: position{line: 749, col: 8, offset: 23865},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement468,
+																								run: (*parser).callonListContinuationElement476,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -31704,7 +32058,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement471,
+																									run: (*parser).callonListContinuationElement479,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -31743,7 +32097,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 853, col: 5, offset: 27271},
-																			run: (*parser).callonListContinuationElement478,
+																			run: (*parser).callonListContinuationElement486,
 																		},
 																	},
 																},
@@ -31762,7 +32116,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 952, col: 5, offset: 29720},
-										run: (*parser).callonListContinuationElement481,
+										run: (*parser).callonListContinuationElement489,
 										expr: &seqExpr{
 											pos: position{line: 952, col: 5, offset: 29720},
 											exprs: []interface{}{
@@ -31770,27 +32124,27 @@ var g = &grammar{
 													pos:   position{line: 952, col: 5, offset: 29720},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24364},
-														run: (*parser).callonListContinuationElement484,
+														pos: position{line: 760, col: 26, offset: 24251},
+														run: (*parser).callonListContinuationElement492,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24364},
+															pos: position{line: 760, col: 26, offset: 24251},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24364},
+																	pos:        position{line: 760, col: 26, offset: 24251},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24370},
+																	pos:   position{line: 760, col: 32, offset: 24257},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24500},
-																		run: (*parser).callonListContinuationElement488,
+																		pos: position{line: 764, col: 13, offset: 24387},
+																		run: (*parser).callonListContinuationElement496,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24501},
+																			pos: position{line: 764, col: 14, offset: 24388},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24501},
+																				pos:        position{line: 764, col: 14, offset: 24388},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -31800,10 +32154,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24390},
+																	pos: position{line: 760, col: 52, offset: 24277},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement492,
+																		run: (*parser).callonListContinuationElement500,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -31818,7 +32172,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement495,
+																			run: (*parser).callonListContinuationElement503,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -31862,7 +32216,7 @@ var g = &grammar{
 														pos: position{line: 966, col: 5, offset: 30239},
 														expr: &actionExpr{
 															pos: position{line: 966, col: 6, offset: 30240},
-															run: (*parser).callonListContinuationElement504,
+															run: (*parser).callonListContinuationElement512,
 															expr: &seqExpr{
 																pos: position{line: 966, col: 6, offset: 30240},
 																exprs: []interface{}{
@@ -31881,7 +32235,7 @@ var g = &grammar{
 																					pos: position{line: 963, col: 40, offset: 30193},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement510,
+																						run: (*parser).callonListContinuationElement518,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -31896,7 +32250,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonListContinuationElement513,
+																							run: (*parser).callonListContinuationElement521,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -31936,10 +32290,10 @@ var g = &grammar{
 																		pos:   position{line: 967, col: 5, offset: 30275},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement521,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement529,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -31948,11 +32302,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement526,
+																							run: (*parser).callonListContinuationElement534,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -31970,7 +32324,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement530,
+																								run: (*parser).callonListContinuationElement538,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -32027,7 +32381,7 @@ var g = &grammar{
 																pos: position{line: 963, col: 40, offset: 30193},
 																expr: &actionExpr{
 																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonListContinuationElement541,
+																	run: (*parser).callonListContinuationElement549,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
@@ -32042,7 +32396,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonListContinuationElement544,
+																		run: (*parser).callonListContinuationElement552,
 																		expr: &choiceExpr{
 																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
@@ -32083,7 +32437,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 868, col: 5, offset: 27581},
-										run: (*parser).callonListContinuationElement551,
+										run: (*parser).callonListContinuationElement559,
 										expr: &seqExpr{
 											pos: position{line: 868, col: 5, offset: 27581},
 											exprs: []interface{}{
@@ -32091,30 +32445,30 @@ var g = &grammar{
 													pos:   position{line: 868, col: 5, offset: 27581},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24123},
-														run: (*parser).callonListContinuationElement554,
+														pos: position{line: 754, col: 5, offset: 24010},
+														run: (*parser).callonListContinuationElement562,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24123},
+															pos: position{line: 754, col: 5, offset: 24010},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24123},
+																	pos:   position{line: 754, col: 5, offset: 24010},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24134},
-																		run: (*parser).callonListContinuationElement557,
+																		pos: position{line: 754, col: 16, offset: 24021},
+																		run: (*parser).callonListContinuationElement565,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24134},
+																			pos: position{line: 754, col: 16, offset: 24021},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24134},
+																					pos:        position{line: 754, col: 16, offset: 24021},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24140},
+																					pos: position{line: 754, col: 22, offset: 24027},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24140},
+																						pos:        position{line: 754, col: 22, offset: 24027},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32125,10 +32479,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24224},
+																	pos: position{line: 756, col: 8, offset: 24111},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement563,
+																		run: (*parser).callonListContinuationElement571,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -32143,7 +32497,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement566,
+																			run: (*parser).callonListContinuationElement574,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -32182,7 +32536,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 869, col: 5, offset: 27619},
-													run: (*parser).callonListContinuationElement573,
+													run: (*parser).callonListContinuationElement581,
 												},
 												&labeledExpr{
 													pos:   position{line: 872, col: 5, offset: 27711},
@@ -32191,7 +32545,7 @@ var g = &grammar{
 														pos: position{line: 887, col: 5, offset: 28101},
 														expr: &actionExpr{
 															pos: position{line: 887, col: 6, offset: 28102},
-															run: (*parser).callonListContinuationElement576,
+															run: (*parser).callonListContinuationElement584,
 															expr: &seqExpr{
 																pos: position{line: 887, col: 6, offset: 28102},
 																exprs: []interface{}{
@@ -32207,30 +32561,30 @@ var g = &grammar{
 																							pos:   position{line: 880, col: 5, offset: 27945},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24123},
-																								run: (*parser).callonListContinuationElement582,
+																								pos: position{line: 754, col: 5, offset: 24010},
+																								run: (*parser).callonListContinuationElement590,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24123},
+																									pos: position{line: 754, col: 5, offset: 24010},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24123},
+																											pos:   position{line: 754, col: 5, offset: 24010},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24134},
-																												run: (*parser).callonListContinuationElement585,
+																												pos: position{line: 754, col: 16, offset: 24021},
+																												run: (*parser).callonListContinuationElement593,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24134},
+																													pos: position{line: 754, col: 16, offset: 24021},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24134},
+																															pos:        position{line: 754, col: 16, offset: 24021},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24140},
+																															pos: position{line: 754, col: 22, offset: 24027},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24140},
+																																pos:        position{line: 754, col: 22, offset: 24027},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32241,10 +32595,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24224},
+																											pos: position{line: 756, col: 8, offset: 24111},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement591,
+																												run: (*parser).callonListContinuationElement599,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -32259,7 +32613,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement594,
+																													run: (*parser).callonListContinuationElement602,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -32298,7 +32652,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 881, col: 5, offset: 27975},
-																							run: (*parser).callonListContinuationElement601,
+																							run: (*parser).callonListContinuationElement609,
 																						},
 																					},
 																				},
@@ -32315,10 +32669,10 @@ var g = &grammar{
 																		pos:   position{line: 888, col: 5, offset: 28131},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement605,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement613,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -32327,11 +32681,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement610,
+																							run: (*parser).callonListContinuationElement618,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -32349,7 +32703,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement614,
+																								run: (*parser).callonListContinuationElement622,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -32406,30 +32760,30 @@ var g = &grammar{
 																			pos:   position{line: 880, col: 5, offset: 27945},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24123},
-																				run: (*parser).callonListContinuationElement626,
+																				pos: position{line: 754, col: 5, offset: 24010},
+																				run: (*parser).callonListContinuationElement634,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24123},
+																					pos: position{line: 754, col: 5, offset: 24010},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24123},
+																							pos:   position{line: 754, col: 5, offset: 24010},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24134},
-																								run: (*parser).callonListContinuationElement629,
+																								pos: position{line: 754, col: 16, offset: 24021},
+																								run: (*parser).callonListContinuationElement637,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24134},
+																									pos: position{line: 754, col: 16, offset: 24021},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24134},
+																											pos:        position{line: 754, col: 16, offset: 24021},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24140},
+																											pos: position{line: 754, col: 22, offset: 24027},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24140},
+																												pos:        position{line: 754, col: 22, offset: 24027},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32440,10 +32794,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24224},
+																							pos: position{line: 756, col: 8, offset: 24111},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement635,
+																								run: (*parser).callonListContinuationElement643,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -32458,7 +32812,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement638,
+																									run: (*parser).callonListContinuationElement646,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -32497,7 +32851,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 881, col: 5, offset: 27975},
-																			run: (*parser).callonListContinuationElement645,
+																			run: (*parser).callonListContinuationElement653,
 																		},
 																	},
 																},
@@ -32516,7 +32870,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 896, col: 5, offset: 28286},
-										run: (*parser).callonListContinuationElement648,
+										run: (*parser).callonListContinuationElement656,
 										expr: &seqExpr{
 											pos: position{line: 896, col: 5, offset: 28286},
 											exprs: []interface{}{
@@ -32524,30 +32878,30 @@ var g = &grammar{
 													pos:   position{line: 896, col: 5, offset: 28286},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24660},
-														run: (*parser).callonListContinuationElement651,
+														pos: position{line: 769, col: 5, offset: 24547},
+														run: (*parser).callonListContinuationElement659,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24660},
+															pos: position{line: 769, col: 5, offset: 24547},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24660},
+																	pos:   position{line: 769, col: 5, offset: 24547},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24671},
-																		run: (*parser).callonListContinuationElement654,
+																		pos: position{line: 769, col: 16, offset: 24558},
+																		run: (*parser).callonListContinuationElement662,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24671},
+																			pos: position{line: 769, col: 16, offset: 24558},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24671},
+																					pos:        position{line: 769, col: 16, offset: 24558},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24678},
+																					pos: position{line: 769, col: 23, offset: 24565},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24678},
+																						pos:        position{line: 769, col: 23, offset: 24565},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32558,10 +32912,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24762},
+																	pos: position{line: 771, col: 8, offset: 24649},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement660,
+																		run: (*parser).callonListContinuationElement668,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -32576,7 +32930,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement663,
+																			run: (*parser).callonListContinuationElement671,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -32615,7 +32969,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 897, col: 5, offset: 28325},
-													run: (*parser).callonListContinuationElement670,
+													run: (*parser).callonListContinuationElement678,
 												},
 												&labeledExpr{
 													pos:   position{line: 900, col: 5, offset: 28417},
@@ -32624,7 +32978,7 @@ var g = &grammar{
 														pos: position{line: 915, col: 5, offset: 28815},
 														expr: &actionExpr{
 															pos: position{line: 915, col: 6, offset: 28816},
-															run: (*parser).callonListContinuationElement673,
+															run: (*parser).callonListContinuationElement681,
 															expr: &seqExpr{
 																pos: position{line: 915, col: 6, offset: 28816},
 																exprs: []interface{}{
@@ -32640,30 +32994,30 @@ var g = &grammar{
 																							pos:   position{line: 908, col: 5, offset: 28657},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24660},
-																								run: (*parser).callonListContinuationElement679,
+																								pos: position{line: 769, col: 5, offset: 24547},
+																								run: (*parser).callonListContinuationElement687,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24660},
+																									pos: position{line: 769, col: 5, offset: 24547},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24660},
+																											pos:   position{line: 769, col: 5, offset: 24547},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24671},
-																												run: (*parser).callonListContinuationElement682,
+																												pos: position{line: 769, col: 16, offset: 24558},
+																												run: (*parser).callonListContinuationElement690,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24671},
+																													pos: position{line: 769, col: 16, offset: 24558},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24671},
+																															pos:        position{line: 769, col: 16, offset: 24558},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24678},
+																															pos: position{line: 769, col: 23, offset: 24565},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24678},
+																																pos:        position{line: 769, col: 23, offset: 24565},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32674,10 +33028,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24762},
+																											pos: position{line: 771, col: 8, offset: 24649},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement688,
+																												run: (*parser).callonListContinuationElement696,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -32692,7 +33046,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement691,
+																													run: (*parser).callonListContinuationElement699,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -32731,7 +33085,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 909, col: 5, offset: 28688},
-																							run: (*parser).callonListContinuationElement698,
+																							run: (*parser).callonListContinuationElement706,
 																						},
 																					},
 																				},
@@ -32748,10 +33102,10 @@ var g = &grammar{
 																		pos:   position{line: 916, col: 5, offset: 28846},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement702,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement710,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -32760,11 +33114,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement707,
+																							run: (*parser).callonListContinuationElement715,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -32782,7 +33136,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement711,
+																								run: (*parser).callonListContinuationElement719,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -32839,30 +33193,30 @@ var g = &grammar{
 																			pos:   position{line: 908, col: 5, offset: 28657},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24660},
-																				run: (*parser).callonListContinuationElement723,
+																				pos: position{line: 769, col: 5, offset: 24547},
+																				run: (*parser).callonListContinuationElement731,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24660},
+																					pos: position{line: 769, col: 5, offset: 24547},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24660},
+																							pos:   position{line: 769, col: 5, offset: 24547},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24671},
-																								run: (*parser).callonListContinuationElement726,
+																								pos: position{line: 769, col: 16, offset: 24558},
+																								run: (*parser).callonListContinuationElement734,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24671},
+																									pos: position{line: 769, col: 16, offset: 24558},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24671},
+																											pos:        position{line: 769, col: 16, offset: 24558},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24678},
+																											pos: position{line: 769, col: 23, offset: 24565},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24678},
+																												pos:        position{line: 769, col: 23, offset: 24565},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32873,10 +33227,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24762},
+																							pos: position{line: 771, col: 8, offset: 24649},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement732,
+																								run: (*parser).callonListContinuationElement740,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -32891,7 +33245,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement735,
+																									run: (*parser).callonListContinuationElement743,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -32930,7 +33284,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 909, col: 5, offset: 28688},
-																			run: (*parser).callonListContinuationElement742,
+																			run: (*parser).callonListContinuationElement750,
 																		},
 																	},
 																},
@@ -32949,7 +33303,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 924, col: 5, offset: 29001},
-										run: (*parser).callonListContinuationElement745,
+										run: (*parser).callonListContinuationElement753,
 										expr: &seqExpr{
 											pos: position{line: 924, col: 5, offset: 29001},
 											exprs: []interface{}{
@@ -32957,30 +33311,30 @@ var g = &grammar{
 													pos:   position{line: 924, col: 5, offset: 29001},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25136},
-														run: (*parser).callonListContinuationElement748,
+														pos: position{line: 783, col: 5, offset: 25023},
+														run: (*parser).callonListContinuationElement756,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25136},
+															pos: position{line: 783, col: 5, offset: 25023},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25136},
+																	pos:   position{line: 783, col: 5, offset: 25023},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25147},
-																		run: (*parser).callonListContinuationElement751,
+																		pos: position{line: 783, col: 16, offset: 25034},
+																		run: (*parser).callonListContinuationElement759,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25147},
+																			pos: position{line: 783, col: 16, offset: 25034},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25147},
+																					pos:        position{line: 783, col: 16, offset: 25034},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25154},
+																					pos: position{line: 783, col: 23, offset: 25041},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25154},
+																						pos:        position{line: 783, col: 23, offset: 25041},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32991,10 +33345,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25238},
+																	pos: position{line: 785, col: 8, offset: 25125},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement757,
+																		run: (*parser).callonListContinuationElement765,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -33009,7 +33363,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement760,
+																			run: (*parser).callonListContinuationElement768,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -33048,7 +33402,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 925, col: 5, offset: 29040},
-													run: (*parser).callonListContinuationElement767,
+													run: (*parser).callonListContinuationElement775,
 												},
 												&labeledExpr{
 													pos:   position{line: 928, col: 5, offset: 29132},
@@ -33057,7 +33411,7 @@ var g = &grammar{
 														pos: position{line: 943, col: 5, offset: 29530},
 														expr: &actionExpr{
 															pos: position{line: 943, col: 6, offset: 29531},
-															run: (*parser).callonListContinuationElement770,
+															run: (*parser).callonListContinuationElement778,
 															expr: &seqExpr{
 																pos: position{line: 943, col: 6, offset: 29531},
 																exprs: []interface{}{
@@ -33073,30 +33427,30 @@ var g = &grammar{
 																							pos:   position{line: 936, col: 5, offset: 29372},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25136},
-																								run: (*parser).callonListContinuationElement776,
+																								pos: position{line: 783, col: 5, offset: 25023},
+																								run: (*parser).callonListContinuationElement784,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25136},
+																									pos: position{line: 783, col: 5, offset: 25023},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25136},
+																											pos:   position{line: 783, col: 5, offset: 25023},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25147},
-																												run: (*parser).callonListContinuationElement779,
+																												pos: position{line: 783, col: 16, offset: 25034},
+																												run: (*parser).callonListContinuationElement787,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25147},
+																													pos: position{line: 783, col: 16, offset: 25034},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25147},
+																															pos:        position{line: 783, col: 16, offset: 25034},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25154},
+																															pos: position{line: 783, col: 23, offset: 25041},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25154},
+																																pos:        position{line: 783, col: 23, offset: 25041},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33107,10 +33461,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25238},
+																											pos: position{line: 785, col: 8, offset: 25125},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement785,
+																												run: (*parser).callonListContinuationElement793,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -33125,7 +33479,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement788,
+																													run: (*parser).callonListContinuationElement796,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -33164,7 +33518,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 937, col: 5, offset: 29403},
-																							run: (*parser).callonListContinuationElement795,
+																							run: (*parser).callonListContinuationElement803,
 																						},
 																					},
 																				},
@@ -33181,10 +33535,10 @@ var g = &grammar{
 																		pos:   position{line: 944, col: 5, offset: 29561},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement799,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement807,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -33193,11 +33547,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement804,
+																							run: (*parser).callonListContinuationElement812,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -33215,7 +33569,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement808,
+																								run: (*parser).callonListContinuationElement816,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -33272,30 +33626,30 @@ var g = &grammar{
 																			pos:   position{line: 936, col: 5, offset: 29372},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25136},
-																				run: (*parser).callonListContinuationElement820,
+																				pos: position{line: 783, col: 5, offset: 25023},
+																				run: (*parser).callonListContinuationElement828,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25136},
+																					pos: position{line: 783, col: 5, offset: 25023},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25136},
+																							pos:   position{line: 783, col: 5, offset: 25023},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25147},
-																								run: (*parser).callonListContinuationElement823,
+																								pos: position{line: 783, col: 16, offset: 25034},
+																								run: (*parser).callonListContinuationElement831,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25147},
+																									pos: position{line: 783, col: 16, offset: 25034},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25147},
+																											pos:        position{line: 783, col: 16, offset: 25034},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25154},
+																											pos: position{line: 783, col: 23, offset: 25041},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25154},
+																												pos:        position{line: 783, col: 23, offset: 25041},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33306,10 +33660,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25238},
+																							pos: position{line: 785, col: 8, offset: 25125},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement829,
+																								run: (*parser).callonListContinuationElement837,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -33324,7 +33678,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement832,
+																									run: (*parser).callonListContinuationElement840,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -33363,7 +33717,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 937, col: 5, offset: 29403},
-																			run: (*parser).callonListContinuationElement839,
+																			run: (*parser).callonListContinuationElement847,
 																		},
 																	},
 																},
@@ -33382,7 +33736,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 975, col: 5, offset: 30444},
-										run: (*parser).callonListContinuationElement842,
+										run: (*parser).callonListContinuationElement850,
 										expr: &seqExpr{
 											pos: position{line: 975, col: 5, offset: 30444},
 											exprs: []interface{}{
@@ -33391,7 +33745,7 @@ var g = &grammar{
 													label: "firstLine",
 													expr: &actionExpr{
 														pos: position{line: 982, col: 5, offset: 30703},
-														run: (*parser).callonListContinuationElement845,
+														run: (*parser).callonListContinuationElement853,
 														expr: &seqExpr{
 															pos: position{line: 982, col: 5, offset: 30703},
 															exprs: []interface{}{
@@ -33399,7 +33753,7 @@ var g = &grammar{
 																	pos: position{line: 982, col: 5, offset: 30703},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21533},
-																		run: (*parser).callonListContinuationElement848,
+																		run: (*parser).callonListContinuationElement856,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
@@ -33413,7 +33767,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement853,
+																						run: (*parser).callonListContinuationElement861,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -33428,7 +33782,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonListContinuationElement856,
+																							run: (*parser).callonListContinuationElement864,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -33476,7 +33830,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2825, col: 14, offset: 89571},
-																		run: (*parser).callonListContinuationElement865,
+																		run: (*parser).callonListContinuationElement873,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
 																			expr: &charClassMatcher{
@@ -33494,7 +33848,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement869,
+																			run: (*parser).callonListContinuationElement877,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -33541,7 +33895,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 982, col: 5, offset: 30703},
-																	run: (*parser).callonListContinuationElement879,
+																	run: (*parser).callonListContinuationElement887,
 																	expr: &seqExpr{
 																		pos: position{line: 982, col: 5, offset: 30703},
 																		exprs: []interface{}{
@@ -33549,7 +33903,7 @@ var g = &grammar{
 																				pos: position{line: 982, col: 5, offset: 30703},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21533},
-																					run: (*parser).callonListContinuationElement882,
+																					run: (*parser).callonListContinuationElement890,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21533},
 																						exprs: []interface{}{
@@ -33563,7 +33917,7 @@ var g = &grammar{
 																								pos: position{line: 677, col: 21, offset: 21540},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonListContinuationElement887,
+																									run: (*parser).callonListContinuationElement895,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -33578,7 +33932,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonListContinuationElement890,
+																										run: (*parser).callonListContinuationElement898,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -33626,7 +33980,7 @@ var g = &grammar{
 																				label: "content",
 																				expr: &actionExpr{
 																					pos: position{line: 2825, col: 14, offset: 89571},
-																					run: (*parser).callonListContinuationElement899,
+																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2825, col: 14, offset: 89571},
 																						expr: &charClassMatcher{
@@ -33644,7 +33998,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonListContinuationElement903,
+																						run: (*parser).callonListContinuationElement911,
 																						expr: &choiceExpr{
 																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
@@ -33682,7 +34036,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 1786, col: 5, offset: 57743},
-																	run: (*parser).callonListContinuationElement910,
+																	run: (*parser).callonListContinuationElement918,
 																	expr: &seqExpr{
 																		pos: position{line: 1786, col: 5, offset: 57743},
 																		exprs: []interface{}{
@@ -33691,7 +34045,7 @@ var g = &grammar{
 																				label: "content",
 																				expr: &actionExpr{
 																					pos: position{line: 2825, col: 14, offset: 89571},
-																					run: (*parser).callonListContinuationElement913,
+																					run: (*parser).callonListContinuationElement921,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2825, col: 14, offset: 89571},
 																						expr: &charClassMatcher{
@@ -33706,14 +34060,14 @@ var g = &grammar{
 																			},
 																			&andCodeExpr{
 																				pos: position{line: 1787, col: 5, offset: 57767},
-																				run: (*parser).callonListContinuationElement916,
+																				run: (*parser).callonListContinuationElement924,
 																			},
 																			&choiceExpr{
 																				pos: position{line: 2897, col: 8, offset: 91376},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonListContinuationElement918,
+																						run: (*parser).callonListContinuationElement926,
 																						expr: &choiceExpr{
 																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
@@ -33758,7 +34112,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 997, col: 5, offset: 30993},
-										run: (*parser).callonListContinuationElement925,
+										run: (*parser).callonListContinuationElement933,
 										expr: &seqExpr{
 											pos: position{line: 997, col: 5, offset: 30993},
 											exprs: []interface{}{
@@ -33766,19 +34120,19 @@ var g = &grammar{
 													pos:   position{line: 997, col: 5, offset: 30993},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24905},
-														run: (*parser).callonListContinuationElement928,
+														pos: position{line: 776, col: 5, offset: 24792},
+														run: (*parser).callonListContinuationElement936,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24905},
+															pos: position{line: 776, col: 5, offset: 24792},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24905},
+																	pos:   position{line: 776, col: 5, offset: 24792},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24916},
-																		run: (*parser).callonListContinuationElement931,
+																		pos: position{line: 776, col: 16, offset: 24803},
+																		run: (*parser).callonListContinuationElement939,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24916},
+																			pos:        position{line: 776, col: 16, offset: 24803},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33786,10 +34140,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24993},
+																	pos: position{line: 778, col: 8, offset: 24880},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement934,
+																		run: (*parser).callonListContinuationElement942,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -33804,7 +34158,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement937,
+																			run: (*parser).callonListContinuationElement945,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -33848,7 +34202,7 @@ var g = &grammar{
 														pos: position{line: 1008, col: 5, offset: 31297},
 														expr: &actionExpr{
 															pos: position{line: 1008, col: 6, offset: 31298},
-															run: (*parser).callonListContinuationElement946,
+															run: (*parser).callonListContinuationElement954,
 															expr: &seqExpr{
 																pos: position{line: 1008, col: 6, offset: 31298},
 																exprs: []interface{}{
@@ -33858,19 +34212,19 @@ var g = &grammar{
 																			pos: position{line: 1005, col: 26, offset: 31246},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24905},
-																					run: (*parser).callonListContinuationElement950,
+																					pos: position{line: 776, col: 5, offset: 24792},
+																					run: (*parser).callonListContinuationElement958,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24905},
+																						pos: position{line: 776, col: 5, offset: 24792},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24905},
+																								pos:   position{line: 776, col: 5, offset: 24792},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24916},
-																									run: (*parser).callonListContinuationElement953,
+																									pos: position{line: 776, col: 16, offset: 24803},
+																									run: (*parser).callonListContinuationElement961,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24916},
+																										pos:        position{line: 776, col: 16, offset: 24803},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33878,10 +34232,10 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24993},
+																								pos: position{line: 778, col: 8, offset: 24880},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonListContinuationElement956,
+																									run: (*parser).callonListContinuationElement964,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -33896,7 +34250,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 2884, col: 12, offset: 91149},
-																										run: (*parser).callonListContinuationElement959,
+																										run: (*parser).callonListContinuationElement967,
 																										expr: &choiceExpr{
 																											pos: position{line: 2884, col: 13, offset: 91150},
 																											alternatives: []interface{}{
@@ -33945,10 +34299,10 @@ var g = &grammar{
 																		pos:   position{line: 1009, col: 5, offset: 31325},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement969,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement977,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -33957,11 +34311,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement974,
+																							run: (*parser).callonListContinuationElement982,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -33979,7 +34333,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement978,
+																								run: (*parser).callonListContinuationElement986,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -34030,19 +34384,19 @@ var g = &grammar{
 															pos: position{line: 1005, col: 26, offset: 31246},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24905},
-																	run: (*parser).callonListContinuationElement988,
+																	pos: position{line: 776, col: 5, offset: 24792},
+																	run: (*parser).callonListContinuationElement996,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24905},
+																		pos: position{line: 776, col: 5, offset: 24792},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24905},
+																				pos:   position{line: 776, col: 5, offset: 24792},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24916},
-																					run: (*parser).callonListContinuationElement991,
+																					pos: position{line: 776, col: 16, offset: 24803},
+																					run: (*parser).callonListContinuationElement999,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24916},
+																						pos:        position{line: 776, col: 16, offset: 24803},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34050,10 +34404,10 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24993},
+																				pos: position{line: 778, col: 8, offset: 24880},
 																				expr: &actionExpr{
 																					pos: position{line: 2875, col: 10, offset: 90978},
-																					run: (*parser).callonListContinuationElement994,
+																					run: (*parser).callonListContinuationElement1002,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
@@ -34068,7 +34422,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonListContinuationElement997,
+																						run: (*parser).callonListContinuationElement1005,
 																						expr: &choiceExpr{
 																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
@@ -34119,7 +34473,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1017, col: 5, offset: 31488},
-										run: (*parser).callonListContinuationElement1006,
+										run: (*parser).callonListContinuationElement1014,
 										expr: &seqExpr{
 											pos: position{line: 1017, col: 5, offset: 31488},
 											exprs: []interface{}{
@@ -34127,30 +34481,30 @@ var g = &grammar{
 													pos:   position{line: 1017, col: 5, offset: 31488},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25388},
-														run: (*parser).callonListContinuationElement1009,
+														pos: position{line: 790, col: 5, offset: 25275},
+														run: (*parser).callonListContinuationElement1017,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25388},
+															pos: position{line: 790, col: 5, offset: 25275},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25388},
+																	pos:   position{line: 790, col: 5, offset: 25275},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25399},
-																		run: (*parser).callonListContinuationElement1012,
+																		pos: position{line: 790, col: 16, offset: 25286},
+																		run: (*parser).callonListContinuationElement1020,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25399},
+																			pos: position{line: 790, col: 16, offset: 25286},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25399},
+																					pos:        position{line: 790, col: 16, offset: 25286},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25406},
+																					pos: position{line: 790, col: 23, offset: 25293},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25406},
+																						pos:        position{line: 790, col: 23, offset: 25293},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34161,10 +34515,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25490},
+																	pos: position{line: 792, col: 8, offset: 25377},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement1018,
+																		run: (*parser).callonListContinuationElement1026,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -34179,7 +34533,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement1021,
+																			run: (*parser).callonListContinuationElement1029,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -34218,7 +34572,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1018, col: 5, offset: 31531},
-													run: (*parser).callonListContinuationElement1028,
+													run: (*parser).callonListContinuationElement1036,
 												},
 												&labeledExpr{
 													pos:   position{line: 1021, col: 5, offset: 31623},
@@ -34227,7 +34581,7 @@ var g = &grammar{
 														pos: position{line: 1036, col: 5, offset: 32053},
 														expr: &actionExpr{
 															pos: position{line: 1036, col: 6, offset: 32054},
-															run: (*parser).callonListContinuationElement1031,
+															run: (*parser).callonListContinuationElement1039,
 															expr: &seqExpr{
 																pos: position{line: 1036, col: 6, offset: 32054},
 																exprs: []interface{}{
@@ -34243,30 +34597,30 @@ var g = &grammar{
 																							pos:   position{line: 1029, col: 5, offset: 31887},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25388},
-																								run: (*parser).callonListContinuationElement1037,
+																								pos: position{line: 790, col: 5, offset: 25275},
+																								run: (*parser).callonListContinuationElement1045,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25388},
+																									pos: position{line: 790, col: 5, offset: 25275},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25388},
+																											pos:   position{line: 790, col: 5, offset: 25275},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25399},
-																												run: (*parser).callonListContinuationElement1040,
+																												pos: position{line: 790, col: 16, offset: 25286},
+																												run: (*parser).callonListContinuationElement1048,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25399},
+																													pos: position{line: 790, col: 16, offset: 25286},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25399},
+																															pos:        position{line: 790, col: 16, offset: 25286},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25406},
+																															pos: position{line: 790, col: 23, offset: 25293},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25406},
+																																pos:        position{line: 790, col: 23, offset: 25293},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34277,10 +34631,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25490},
+																											pos: position{line: 792, col: 8, offset: 25377},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1046,
+																												run: (*parser).callonListContinuationElement1054,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -34295,7 +34649,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1049,
+																													run: (*parser).callonListContinuationElement1057,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -34334,7 +34688,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1030, col: 5, offset: 31922},
-																							run: (*parser).callonListContinuationElement1056,
+																							run: (*parser).callonListContinuationElement1064,
 																						},
 																					},
 																				},
@@ -34351,10 +34705,10 @@ var g = &grammar{
 																		pos:   position{line: 1037, col: 5, offset: 32088},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement1060,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement1068,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -34363,11 +34717,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement1065,
+																							run: (*parser).callonListContinuationElement1073,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -34385,7 +34739,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement1069,
+																								run: (*parser).callonListContinuationElement1077,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -34442,30 +34796,30 @@ var g = &grammar{
 																			pos:   position{line: 1029, col: 5, offset: 31887},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25388},
-																				run: (*parser).callonListContinuationElement1081,
+																				pos: position{line: 790, col: 5, offset: 25275},
+																				run: (*parser).callonListContinuationElement1089,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25388},
+																					pos: position{line: 790, col: 5, offset: 25275},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25388},
+																							pos:   position{line: 790, col: 5, offset: 25275},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25399},
-																								run: (*parser).callonListContinuationElement1084,
+																								pos: position{line: 790, col: 16, offset: 25286},
+																								run: (*parser).callonListContinuationElement1092,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25399},
+																									pos: position{line: 790, col: 16, offset: 25286},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25399},
+																											pos:        position{line: 790, col: 16, offset: 25286},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25406},
+																											pos: position{line: 790, col: 23, offset: 25293},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25406},
+																												pos:        position{line: 790, col: 23, offset: 25293},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34476,10 +34830,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25490},
+																							pos: position{line: 792, col: 8, offset: 25377},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement1090,
+																								run: (*parser).callonListContinuationElement1098,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -34494,7 +34848,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement1093,
+																									run: (*parser).callonListContinuationElement1101,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -34533,7 +34887,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1030, col: 5, offset: 31922},
-																			run: (*parser).callonListContinuationElement1100,
+																			run: (*parser).callonListContinuationElement1108,
 																		},
 																	},
 																},
@@ -34552,7 +34906,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1045, col: 5, offset: 32239},
-										run: (*parser).callonListContinuationElement1103,
+										run: (*parser).callonListContinuationElement1111,
 										expr: &seqExpr{
 											pos: position{line: 1045, col: 5, offset: 32239},
 											exprs: []interface{}{
@@ -34560,30 +34914,30 @@ var g = &grammar{
 													pos:   position{line: 1045, col: 5, offset: 32239},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25638},
-														run: (*parser).callonListContinuationElement1106,
+														pos: position{line: 797, col: 5, offset: 25525},
+														run: (*parser).callonListContinuationElement1114,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25638},
+															pos: position{line: 797, col: 5, offset: 25525},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25638},
+																	pos:   position{line: 797, col: 5, offset: 25525},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25649},
-																		run: (*parser).callonListContinuationElement1109,
+																		pos: position{line: 797, col: 16, offset: 25536},
+																		run: (*parser).callonListContinuationElement1117,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25649},
+																			pos: position{line: 797, col: 16, offset: 25536},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25649},
+																					pos:        position{line: 797, col: 16, offset: 25536},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25656},
+																					pos: position{line: 797, col: 23, offset: 25543},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25656},
+																						pos:        position{line: 797, col: 23, offset: 25543},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34594,10 +34948,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25740},
+																	pos: position{line: 799, col: 8, offset: 25627},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement1115,
+																		run: (*parser).callonListContinuationElement1123,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -34612,7 +34966,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement1118,
+																			run: (*parser).callonListContinuationElement1126,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -34651,7 +35005,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1046, col: 5, offset: 32276},
-													run: (*parser).callonListContinuationElement1125,
+													run: (*parser).callonListContinuationElement1133,
 												},
 												&labeledExpr{
 													pos:   position{line: 1049, col: 5, offset: 32368},
@@ -34660,7 +35014,7 @@ var g = &grammar{
 														pos: position{line: 1064, col: 4, offset: 32749},
 														expr: &actionExpr{
 															pos: position{line: 1064, col: 5, offset: 32750},
-															run: (*parser).callonListContinuationElement1128,
+															run: (*parser).callonListContinuationElement1136,
 															expr: &seqExpr{
 																pos: position{line: 1064, col: 5, offset: 32750},
 																exprs: []interface{}{
@@ -34676,30 +35030,30 @@ var g = &grammar{
 																							pos:   position{line: 1057, col: 5, offset: 32596},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25638},
-																								run: (*parser).callonListContinuationElement1134,
+																								pos: position{line: 797, col: 5, offset: 25525},
+																								run: (*parser).callonListContinuationElement1142,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25638},
+																									pos: position{line: 797, col: 5, offset: 25525},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25638},
+																											pos:   position{line: 797, col: 5, offset: 25525},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25649},
-																												run: (*parser).callonListContinuationElement1137,
+																												pos: position{line: 797, col: 16, offset: 25536},
+																												run: (*parser).callonListContinuationElement1145,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25649},
+																													pos: position{line: 797, col: 16, offset: 25536},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25649},
+																															pos:        position{line: 797, col: 16, offset: 25536},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25656},
+																															pos: position{line: 797, col: 23, offset: 25543},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25656},
+																																pos:        position{line: 797, col: 23, offset: 25543},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34710,10 +35064,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25740},
+																											pos: position{line: 799, col: 8, offset: 25627},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1143,
+																												run: (*parser).callonListContinuationElement1151,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -34728,7 +35082,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1146,
+																													run: (*parser).callonListContinuationElement1154,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -34767,7 +35121,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1058, col: 5, offset: 32625},
-																							run: (*parser).callonListContinuationElement1153,
+																							run: (*parser).callonListContinuationElement1161,
 																						},
 																					},
 																				},
@@ -34784,10 +35138,10 @@ var g = &grammar{
 																		pos:   position{line: 1065, col: 5, offset: 32778},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement1157,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement1165,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -34796,11 +35150,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement1162,
+																							run: (*parser).callonListContinuationElement1170,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -34818,7 +35172,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement1166,
+																								run: (*parser).callonListContinuationElement1174,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -34875,30 +35229,30 @@ var g = &grammar{
 																			pos:   position{line: 1057, col: 5, offset: 32596},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25638},
-																				run: (*parser).callonListContinuationElement1178,
+																				pos: position{line: 797, col: 5, offset: 25525},
+																				run: (*parser).callonListContinuationElement1186,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25638},
+																					pos: position{line: 797, col: 5, offset: 25525},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25638},
+																							pos:   position{line: 797, col: 5, offset: 25525},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25649},
-																								run: (*parser).callonListContinuationElement1181,
+																								pos: position{line: 797, col: 16, offset: 25536},
+																								run: (*parser).callonListContinuationElement1189,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25649},
+																									pos: position{line: 797, col: 16, offset: 25536},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25649},
+																											pos:        position{line: 797, col: 16, offset: 25536},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25656},
+																											pos: position{line: 797, col: 23, offset: 25543},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25656},
+																												pos:        position{line: 797, col: 23, offset: 25543},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34909,10 +35263,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25740},
+																							pos: position{line: 799, col: 8, offset: 25627},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement1187,
+																								run: (*parser).callonListContinuationElement1195,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -34927,7 +35281,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement1190,
+																									run: (*parser).callonListContinuationElement1198,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -34966,7 +35320,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1058, col: 5, offset: 32625},
-																			run: (*parser).callonListContinuationElement1197,
+																			run: (*parser).callonListContinuationElement1205,
 																		},
 																	},
 																},
@@ -34985,7 +35339,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1073, col: 5, offset: 32933},
-										run: (*parser).callonListContinuationElement1200,
+										run: (*parser).callonListContinuationElement1208,
 										expr: &seqExpr{
 											pos: position{line: 1073, col: 5, offset: 32933},
 											exprs: []interface{}{
@@ -34993,30 +35347,30 @@ var g = &grammar{
 													pos:   position{line: 1073, col: 5, offset: 32933},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25884},
-														run: (*parser).callonListContinuationElement1203,
+														pos: position{line: 804, col: 5, offset: 25771},
+														run: (*parser).callonListContinuationElement1211,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25884},
+															pos: position{line: 804, col: 5, offset: 25771},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25884},
+																	pos:   position{line: 804, col: 5, offset: 25771},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25895},
-																		run: (*parser).callonListContinuationElement1206,
+																		pos: position{line: 804, col: 16, offset: 25782},
+																		run: (*parser).callonListContinuationElement1214,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25895},
+																			pos: position{line: 804, col: 16, offset: 25782},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25895},
+																					pos:        position{line: 804, col: 16, offset: 25782},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25902},
+																					pos: position{line: 804, col: 23, offset: 25789},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25902},
+																						pos:        position{line: 804, col: 23, offset: 25789},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35027,10 +35381,10 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25986},
+																	pos: position{line: 806, col: 8, offset: 25873},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement1212,
+																		run: (*parser).callonListContinuationElement1220,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -35045,7 +35399,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement1215,
+																			run: (*parser).callonListContinuationElement1223,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -35084,7 +35438,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1074, col: 5, offset: 32972},
-													run: (*parser).callonListContinuationElement1222,
+													run: (*parser).callonListContinuationElement1230,
 												},
 												&labeledExpr{
 													pos:   position{line: 1077, col: 5, offset: 33064},
@@ -35093,7 +35447,7 @@ var g = &grammar{
 														pos: position{line: 1092, col: 4, offset: 33461},
 														expr: &actionExpr{
 															pos: position{line: 1092, col: 5, offset: 33462},
-															run: (*parser).callonListContinuationElement1225,
+															run: (*parser).callonListContinuationElement1233,
 															expr: &seqExpr{
 																pos: position{line: 1092, col: 5, offset: 33462},
 																exprs: []interface{}{
@@ -35109,30 +35463,30 @@ var g = &grammar{
 																							pos:   position{line: 1085, col: 5, offset: 33304},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25884},
-																								run: (*parser).callonListContinuationElement1231,
+																								pos: position{line: 804, col: 5, offset: 25771},
+																								run: (*parser).callonListContinuationElement1239,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25884},
+																									pos: position{line: 804, col: 5, offset: 25771},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25884},
+																											pos:   position{line: 804, col: 5, offset: 25771},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25895},
-																												run: (*parser).callonListContinuationElement1234,
+																												pos: position{line: 804, col: 16, offset: 25782},
+																												run: (*parser).callonListContinuationElement1242,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25895},
+																													pos: position{line: 804, col: 16, offset: 25782},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25895},
+																															pos:        position{line: 804, col: 16, offset: 25782},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25902},
+																															pos: position{line: 804, col: 23, offset: 25789},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25902},
+																																pos:        position{line: 804, col: 23, offset: 25789},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35143,10 +35497,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25986},
+																											pos: position{line: 806, col: 8, offset: 25873},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1240,
+																												run: (*parser).callonListContinuationElement1248,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -35161,7 +35515,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1243,
+																													run: (*parser).callonListContinuationElement1251,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -35200,7 +35554,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1086, col: 5, offset: 33335},
-																							run: (*parser).callonListContinuationElement1250,
+																							run: (*parser).callonListContinuationElement1258,
 																						},
 																					},
 																				},
@@ -35217,10 +35571,10 @@ var g = &grammar{
 																		pos:   position{line: 1093, col: 5, offset: 33492},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26132},
-																			run: (*parser).callonListContinuationElement1254,
+																			pos: position{line: 811, col: 5, offset: 26019},
+																			run: (*parser).callonListContinuationElement1262,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26132},
+																				pos: position{line: 811, col: 5, offset: 26019},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2892, col: 11, offset: 91312},
@@ -35229,11 +35583,11 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26207},
+																						pos:   position{line: 812, col: 5, offset: 26094},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2821, col: 13, offset: 89504},
-																							run: (*parser).callonListContinuationElement1259,
+																							run: (*parser).callonListContinuationElement1267,
 																							expr: &zeroOrMoreExpr{
 																								pos: position{line: 2821, col: 13, offset: 89504},
 																								expr: &charClassMatcher{
@@ -35251,7 +35605,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonListContinuationElement1263,
+																								run: (*parser).callonListContinuationElement1271,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -35308,30 +35662,30 @@ var g = &grammar{
 																			pos:   position{line: 1085, col: 5, offset: 33304},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25884},
-																				run: (*parser).callonListContinuationElement1275,
+																				pos: position{line: 804, col: 5, offset: 25771},
+																				run: (*parser).callonListContinuationElement1283,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25884},
+																					pos: position{line: 804, col: 5, offset: 25771},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25884},
+																							pos:   position{line: 804, col: 5, offset: 25771},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25895},
-																								run: (*parser).callonListContinuationElement1278,
+																								pos: position{line: 804, col: 16, offset: 25782},
+																								run: (*parser).callonListContinuationElement1286,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25895},
+																									pos: position{line: 804, col: 16, offset: 25782},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25895},
+																											pos:        position{line: 804, col: 16, offset: 25782},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25902},
+																											pos: position{line: 804, col: 23, offset: 25789},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25902},
+																												pos:        position{line: 804, col: 23, offset: 25789},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35342,10 +35696,10 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25986},
+																							pos: position{line: 806, col: 8, offset: 25873},
 																							expr: &actionExpr{
 																								pos: position{line: 2875, col: 10, offset: 90978},
-																								run: (*parser).callonListContinuationElement1284,
+																								run: (*parser).callonListContinuationElement1292,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2875, col: 10, offset: 90978},
 																									val:        "[\\t ]",
@@ -35360,7 +35714,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2884, col: 12, offset: 91149},
-																									run: (*parser).callonListContinuationElement1287,
+																									run: (*parser).callonListContinuationElement1295,
 																									expr: &choiceExpr{
 																										pos: position{line: 2884, col: 13, offset: 91150},
 																										alternatives: []interface{}{
@@ -35399,7 +35753,7 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1086, col: 5, offset: 33335},
-																			run: (*parser).callonListContinuationElement1294,
+																			run: (*parser).callonListContinuationElement1302,
 																		},
 																	},
 																},
@@ -35418,7 +35772,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2720, col: 18, offset: 86568},
-										run: (*parser).callonListContinuationElement1297,
+										run: (*parser).callonListContinuationElement1305,
 										expr: &seqExpr{
 											pos: position{line: 2720, col: 18, offset: 86568},
 											exprs: []interface{}{
@@ -35473,7 +35827,7 @@ var g = &grammar{
 													pos: position{line: 2723, col: 11, offset: 86716},
 													expr: &actionExpr{
 														pos: position{line: 2875, col: 10, offset: 90978},
-														run: (*parser).callonListContinuationElement1308,
+														run: (*parser).callonListContinuationElement1316,
 														expr: &charClassMatcher{
 															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
@@ -35488,7 +35842,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonListContinuationElement1311,
+															run: (*parser).callonListContinuationElement1319,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -35526,7 +35880,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonListContinuationElement1319,
+															run: (*parser).callonListContinuationElement1327,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -35568,7 +35922,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2611, col: 5, offset: 83504},
-										run: (*parser).callonListContinuationElement1327,
+										run: (*parser).callonListContinuationElement1335,
 										expr: &seqExpr{
 											pos: position{line: 2611, col: 5, offset: 83504},
 											exprs: []interface{}{
@@ -35582,7 +35936,7 @@ var g = &grammar{
 													pos: position{line: 2617, col: 26, offset: 83668},
 													expr: &actionExpr{
 														pos: position{line: 2875, col: 10, offset: 90978},
-														run: (*parser).callonListContinuationElement1331,
+														run: (*parser).callonListContinuationElement1339,
 														expr: &charClassMatcher{
 															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
@@ -35597,7 +35951,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonListContinuationElement1334,
+															run: (*parser).callonListContinuationElement1342,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -35640,7 +35994,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21533},
-																	run: (*parser).callonListContinuationElement1344,
+																	run: (*parser).callonListContinuationElement1352,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21533},
 																		exprs: []interface{}{
@@ -35654,7 +36008,7 @@ var g = &grammar{
 																				pos: position{line: 677, col: 21, offset: 21540},
 																				expr: &actionExpr{
 																					pos: position{line: 2875, col: 10, offset: 90978},
-																					run: (*parser).callonListContinuationElement1349,
+																					run: (*parser).callonListContinuationElement1357,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
@@ -35669,7 +36023,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonListContinuationElement1352,
+																						run: (*parser).callonListContinuationElement1360,
 																						expr: &choiceExpr{
 																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
@@ -35707,7 +36061,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2624, col: 5, offset: 83780},
-																	run: (*parser).callonListContinuationElement1359,
+																	run: (*parser).callonListContinuationElement1367,
 																	expr: &seqExpr{
 																		pos: position{line: 2624, col: 5, offset: 83780},
 																		exprs: []interface{}{
@@ -35729,7 +36083,7 @@ var g = &grammar{
 																									pos: position{line: 2617, col: 26, offset: 83668},
 																									expr: &actionExpr{
 																										pos: position{line: 2875, col: 10, offset: 90978},
-																										run: (*parser).callonListContinuationElement1366,
+																										run: (*parser).callonListContinuationElement1374,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 2875, col: 10, offset: 90978},
 																											val:        "[\\t ]",
@@ -35744,7 +36098,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2884, col: 12, offset: 91149},
-																											run: (*parser).callonListContinuationElement1369,
+																											run: (*parser).callonListContinuationElement1377,
 																											expr: &choiceExpr{
 																												pos: position{line: 2884, col: 13, offset: 91150},
 																												alternatives: []interface{}{
@@ -35796,7 +36150,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2626, col: 10, offset: 83822},
-																							run: (*parser).callonListContinuationElement1380,
+																							run: (*parser).callonListContinuationElement1388,
 																							expr: &labeledExpr{
 																								pos:   position{line: 2626, col: 10, offset: 83822},
 																								label: "cells",
@@ -35805,7 +36159,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2634, col: 21, offset: 84025},
-																											run: (*parser).callonListContinuationElement1383,
+																											run: (*parser).callonListContinuationElement1391,
 																											expr: &seqExpr{
 																												pos: position{line: 2634, col: 21, offset: 84025},
 																												exprs: []interface{}{
@@ -35816,7 +36170,7 @@ var g = &grammar{
 																															pos: position{line: 2634, col: 27, offset: 84031},
 																															expr: &actionExpr{
 																																pos: position{line: 2639, col: 5, offset: 84157},
-																																run: (*parser).callonListContinuationElement1387,
+																																run: (*parser).callonListContinuationElement1395,
 																																expr: &seqExpr{
 																																	pos: position{line: 2639, col: 5, offset: 84157},
 																																	exprs: []interface{}{
@@ -35830,7 +36184,7 @@ var g = &grammar{
 																																			pos: position{line: 2639, col: 9, offset: 84161},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2875, col: 10, offset: 90978},
-																																				run: (*parser).callonListContinuationElement1391,
+																																				run: (*parser).callonListContinuationElement1399,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 2875, col: 10, offset: 90978},
 																																					val:        "[\\t ]",
@@ -35845,13 +36199,13 @@ var g = &grammar{
 																																			label: "content",
 																																			expr: &actionExpr{
 																																				pos: position{line: 2645, col: 5, offset: 84339},
-																																				run: (*parser).callonListContinuationElement1394,
+																																				run: (*parser).callonListContinuationElement1402,
 																																				expr: &labeledExpr{
 																																					pos:   position{line: 2645, col: 5, offset: 84339},
 																																					label: "content",
 																																					expr: &actionExpr{
 																																						pos: position{line: 2645, col: 14, offset: 84348},
-																																						run: (*parser).callonListContinuationElement1396,
+																																						run: (*parser).callonListContinuationElement1404,
 																																						expr: &zeroOrMoreExpr{
 																																							pos: position{line: 2645, col: 14, offset: 84348},
 																																							expr: &charClassMatcher{
@@ -35876,7 +36230,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 2884, col: 12, offset: 91149},
-																																run: (*parser).callonListContinuationElement1400,
+																																run: (*parser).callonListContinuationElement1408,
 																																expr: &choiceExpr{
 																																	pos: position{line: 2884, col: 13, offset: 91150},
 																																	alternatives: []interface{}{
@@ -35918,7 +36272,7 @@ var g = &grammar{
 																																	pos: position{line: 2634, col: 52, offset: 84056},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21533},
-																																		run: (*parser).callonListContinuationElement1410,
+																																		run: (*parser).callonListContinuationElement1418,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21533},
 																																			exprs: []interface{}{
@@ -35932,7 +36286,7 @@ var g = &grammar{
 																																					pos: position{line: 677, col: 21, offset: 21540},
 																																					expr: &actionExpr{
 																																						pos: position{line: 2875, col: 10, offset: 90978},
-																																						run: (*parser).callonListContinuationElement1415,
+																																						run: (*parser).callonListContinuationElement1423,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 2875, col: 10, offset: 90978},
 																																							val:        "[\\t ]",
@@ -35947,7 +36301,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 2884, col: 12, offset: 91149},
-																																							run: (*parser).callonListContinuationElement1418,
+																																							run: (*parser).callonListContinuationElement1426,
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2884, col: 13, offset: 91150},
 																																								alternatives: []interface{}{
@@ -36000,7 +36354,7 @@ var g = &grammar{
 																																					pos: position{line: 2617, col: 26, offset: 83668},
 																																					expr: &actionExpr{
 																																						pos: position{line: 2875, col: 10, offset: 90978},
-																																						run: (*parser).callonListContinuationElement1429,
+																																						run: (*parser).callonListContinuationElement1437,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 2875, col: 10, offset: 90978},
 																																							val:        "[\\t ]",
@@ -36015,7 +36369,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 2884, col: 12, offset: 91149},
-																																							run: (*parser).callonListContinuationElement1432,
+																																							run: (*parser).callonListContinuationElement1440,
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2884, col: 13, offset: 91150},
 																																								alternatives: []interface{}{
@@ -36144,7 +36498,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 2653, col: 24, offset: 84541},
-																											run: (*parser).callonListContinuationElement1456,
+																											run: (*parser).callonListContinuationElement1464,
 																											expr: &seqExpr{
 																												pos: position{line: 2653, col: 24, offset: 84541},
 																												exprs: []interface{}{
@@ -36155,7 +36509,7 @@ var g = &grammar{
 																															pos: position{line: 2653, col: 30, offset: 84547},
 																															expr: &actionExpr{
 																																pos: position{line: 2657, col: 24, offset: 84676},
-																																run: (*parser).callonListContinuationElement1460,
+																																run: (*parser).callonListContinuationElement1468,
 																																expr: &seqExpr{
 																																	pos: position{line: 2657, col: 24, offset: 84676},
 																																	exprs: []interface{}{
@@ -36177,7 +36531,7 @@ var g = &grammar{
 																																								pos: position{line: 2617, col: 26, offset: 83668},
 																																								expr: &actionExpr{
 																																									pos: position{line: 2875, col: 10, offset: 90978},
-																																									run: (*parser).callonListContinuationElement1467,
+																																									run: (*parser).callonListContinuationElement1475,
 																																									expr: &charClassMatcher{
 																																										pos:        position{line: 2875, col: 10, offset: 90978},
 																																										val:        "[\\t ]",
@@ -36192,7 +36546,7 @@ var g = &grammar{
 																																								alternatives: []interface{}{
 																																									&actionExpr{
 																																										pos: position{line: 2884, col: 12, offset: 91149},
-																																										run: (*parser).callonListContinuationElement1470,
+																																										run: (*parser).callonListContinuationElement1478,
 																																										expr: &choiceExpr{
 																																											pos: position{line: 2884, col: 13, offset: 91150},
 																																											alternatives: []interface{}{
@@ -36243,7 +36597,7 @@ var g = &grammar{
 																																				pos: position{line: 2657, col: 50, offset: 84702},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2678, col: 20, offset: 85353},
-																																					run: (*parser).callonListContinuationElement1481,
+																																					run: (*parser).callonListContinuationElement1489,
 																																					expr: &zeroOrMoreExpr{
 																																						pos: position{line: 2678, col: 20, offset: 85353},
 																																						expr: &charClassMatcher{
@@ -36267,7 +36621,7 @@ var g = &grammar{
 																																			pos: position{line: 2657, col: 73, offset: 84725},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2875, col: 10, offset: 90978},
-																																				run: (*parser).callonListContinuationElement1486,
+																																				run: (*parser).callonListContinuationElement1494,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 2875, col: 10, offset: 90978},
 																																					val:        "[\\t ]",
@@ -36282,13 +36636,13 @@ var g = &grammar{
 																																			label: "content",
 																																			expr: &actionExpr{
 																																				pos: position{line: 2645, col: 5, offset: 84339},
-																																				run: (*parser).callonListContinuationElement1489,
+																																				run: (*parser).callonListContinuationElement1497,
 																																				expr: &labeledExpr{
 																																					pos:   position{line: 2645, col: 5, offset: 84339},
 																																					label: "content",
 																																					expr: &actionExpr{
 																																						pos: position{line: 2645, col: 14, offset: 84348},
-																																						run: (*parser).callonListContinuationElement1491,
+																																						run: (*parser).callonListContinuationElement1499,
 																																						expr: &zeroOrMoreExpr{
 																																							pos: position{line: 2645, col: 14, offset: 84348},
 																																							expr: &charClassMatcher{
@@ -36322,7 +36676,7 @@ var g = &grammar{
 																														label: "last",
 																														expr: &actionExpr{
 																															pos: position{line: 2662, col: 5, offset: 84881},
-																															run: (*parser).callonListContinuationElement1497,
+																															run: (*parser).callonListContinuationElement1505,
 																															expr: &seqExpr{
 																																pos: position{line: 2662, col: 5, offset: 84881},
 																																exprs: []interface{}{
@@ -36344,7 +36698,7 @@ var g = &grammar{
 																																							pos: position{line: 2617, col: 26, offset: 83668},
 																																							expr: &actionExpr{
 																																								pos: position{line: 2875, col: 10, offset: 90978},
-																																								run: (*parser).callonListContinuationElement1504,
+																																								run: (*parser).callonListContinuationElement1512,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 2875, col: 10, offset: 90978},
 																																									val:        "[\\t ]",
@@ -36359,7 +36713,7 @@ var g = &grammar{
 																																							alternatives: []interface{}{
 																																								&actionExpr{
 																																									pos: position{line: 2884, col: 12, offset: 91149},
-																																									run: (*parser).callonListContinuationElement1507,
+																																									run: (*parser).callonListContinuationElement1515,
 																																									expr: &choiceExpr{
 																																										pos: position{line: 2884, col: 13, offset: 91150},
 																																										alternatives: []interface{}{
@@ -36410,7 +36764,7 @@ var g = &grammar{
 																																			pos: position{line: 2663, col: 12, offset: 84911},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2678, col: 20, offset: 85353},
-																																				run: (*parser).callonListContinuationElement1518,
+																																				run: (*parser).callonListContinuationElement1526,
 																																				expr: &zeroOrMoreExpr{
 																																					pos: position{line: 2678, col: 20, offset: 85353},
 																																					expr: &charClassMatcher{
@@ -36434,7 +36788,7 @@ var g = &grammar{
 																																		pos: position{line: 2663, col: 35, offset: 84934},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2875, col: 10, offset: 90978},
-																																			run: (*parser).callonListContinuationElement1523,
+																																			run: (*parser).callonListContinuationElement1531,
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 2875, col: 10, offset: 90978},
 																																				val:        "[\\t ]",
@@ -36448,7 +36802,7 @@ var g = &grammar{
 																																		pos: position{line: 2663, col: 42, offset: 84941},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2884, col: 12, offset: 91149},
-																																			run: (*parser).callonListContinuationElement1526,
+																																			run: (*parser).callonListContinuationElement1534,
 																																			expr: &choiceExpr{
 																																				pos: position{line: 2884, col: 13, offset: 91150},
 																																				alternatives: []interface{}{
@@ -36481,7 +36835,7 @@ var g = &grammar{
 																																			pos: position{line: 2669, col: 5, offset: 85109},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2670, col: 9, offset: 85119},
-																																				run: (*parser).callonListContinuationElement1533,
+																																				run: (*parser).callonListContinuationElement1541,
 																																				expr: &seqExpr{
 																																					pos: position{line: 2670, col: 9, offset: 85119},
 																																					exprs: []interface{}{
@@ -36494,7 +36848,7 @@ var g = &grammar{
 																																										pos: position{line: 2670, col: 11, offset: 85121},
 																																										expr: &actionExpr{
 																																											pos: position{line: 677, col: 14, offset: 21533},
-																																											run: (*parser).callonListContinuationElement1538,
+																																											run: (*parser).callonListContinuationElement1546,
 																																											expr: &seqExpr{
 																																												pos: position{line: 677, col: 14, offset: 21533},
 																																												exprs: []interface{}{
@@ -36508,7 +36862,7 @@ var g = &grammar{
 																																														pos: position{line: 677, col: 21, offset: 21540},
 																																														expr: &actionExpr{
 																																															pos: position{line: 2875, col: 10, offset: 90978},
-																																															run: (*parser).callonListContinuationElement1543,
+																																															run: (*parser).callonListContinuationElement1551,
 																																															expr: &charClassMatcher{
 																																																pos:        position{line: 2875, col: 10, offset: 90978},
 																																																val:        "[\\t ]",
@@ -36523,7 +36877,7 @@ var g = &grammar{
 																																														alternatives: []interface{}{
 																																															&actionExpr{
 																																																pos: position{line: 2884, col: 12, offset: 91149},
-																																																run: (*parser).callonListContinuationElement1546,
+																																																run: (*parser).callonListContinuationElement1554,
 																																																expr: &choiceExpr{
 																																																	pos: position{line: 2884, col: 13, offset: 91150},
 																																																	alternatives: []interface{}{
@@ -36576,7 +36930,7 @@ var g = &grammar{
 																																														pos: position{line: 2617, col: 26, offset: 83668},
 																																														expr: &actionExpr{
 																																															pos: position{line: 2875, col: 10, offset: 90978},
-																																															run: (*parser).callonListContinuationElement1557,
+																																															run: (*parser).callonListContinuationElement1565,
 																																															expr: &charClassMatcher{
 																																																pos:        position{line: 2875, col: 10, offset: 90978},
 																																																val:        "[\\t ]",
@@ -36591,7 +36945,7 @@ var g = &grammar{
 																																														alternatives: []interface{}{
 																																															&actionExpr{
 																																																pos: position{line: 2884, col: 12, offset: 91149},
-																																																run: (*parser).callonListContinuationElement1560,
+																																																run: (*parser).callonListContinuationElement1568,
 																																																expr: &choiceExpr{
 																																																	pos: position{line: 2884, col: 13, offset: 91150},
 																																																	alternatives: []interface{}{
@@ -36720,13 +37074,13 @@ var g = &grammar{
 																																							label: "content",
 																																							expr: &actionExpr{
 																																								pos: position{line: 2645, col: 5, offset: 84339},
-																																								run: (*parser).callonListContinuationElement1585,
+																																								run: (*parser).callonListContinuationElement1593,
 																																								expr: &labeledExpr{
 																																									pos:   position{line: 2645, col: 5, offset: 84339},
 																																									label: "content",
 																																									expr: &actionExpr{
 																																										pos: position{line: 2645, col: 14, offset: 84348},
-																																										run: (*parser).callonListContinuationElement1587,
+																																										run: (*parser).callonListContinuationElement1595,
 																																										expr: &zeroOrMoreExpr{
 																																											pos: position{line: 2645, col: 14, offset: 84348},
 																																											expr: &charClassMatcher{
@@ -36748,7 +37102,7 @@ var g = &grammar{
 																																								alternatives: []interface{}{
 																																									&actionExpr{
 																																										pos: position{line: 2884, col: 12, offset: 91149},
-																																										run: (*parser).callonListContinuationElement1592,
+																																										run: (*parser).callonListContinuationElement1600,
 																																										expr: &choiceExpr{
 																																											pos: position{line: 2884, col: 13, offset: 91150},
 																																											alternatives: []interface{}{
@@ -36800,7 +37154,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21533},
-																							run: (*parser).callonListContinuationElement1599,
+																							run: (*parser).callonListContinuationElement1607,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21533},
 																								exprs: []interface{}{
@@ -36814,7 +37168,7 @@ var g = &grammar{
 																										pos: position{line: 677, col: 21, offset: 21540},
 																										expr: &actionExpr{
 																											pos: position{line: 2875, col: 10, offset: 90978},
-																											run: (*parser).callonListContinuationElement1604,
+																											run: (*parser).callonListContinuationElement1612,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2875, col: 10, offset: 90978},
 																												val:        "[\\t ]",
@@ -36829,7 +37183,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2884, col: 12, offset: 91149},
-																												run: (*parser).callonListContinuationElement1607,
+																												run: (*parser).callonListContinuationElement1615,
 																												expr: &choiceExpr{
 																													pos: position{line: 2884, col: 13, offset: 91150},
 																													alternatives: []interface{}{
@@ -36891,7 +37245,7 @@ var g = &grammar{
 																	pos: position{line: 2617, col: 26, offset: 83668},
 																	expr: &actionExpr{
 																		pos: position{line: 2875, col: 10, offset: 90978},
-																		run: (*parser).callonListContinuationElement1618,
+																		run: (*parser).callonListContinuationElement1626,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2875, col: 10, offset: 90978},
 																			val:        "[\\t ]",
@@ -36906,7 +37260,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement1621,
+																			run: (*parser).callonListContinuationElement1629,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -36954,7 +37308,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2482, col: 22, offset: 79892},
-										run: (*parser).callonListContinuationElement1630,
+										run: (*parser).callonListContinuationElement1638,
 										expr: &seqExpr{
 											pos: position{line: 2482, col: 22, offset: 79892},
 											exprs: []interface{}{
@@ -36978,7 +37332,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2821, col: 13, offset: 89504},
-														run: (*parser).callonListContinuationElement1636,
+														run: (*parser).callonListContinuationElement1644,
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 2821, col: 13, offset: 89504},
 															expr: &charClassMatcher{
@@ -36996,7 +37350,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2884, col: 12, offset: 91149},
-															run: (*parser).callonListContinuationElement1640,
+															run: (*parser).callonListContinuationElement1648,
 															expr: &choiceExpr{
 																pos: position{line: 2884, col: 13, offset: 91150},
 																alternatives: []interface{}{
@@ -37034,7 +37388,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1561, col: 5, offset: 50460},
-										run: (*parser).callonListContinuationElement1647,
+										run: (*parser).callonListContinuationElement1655,
 										expr: &seqExpr{
 											pos: position{line: 1561, col: 5, offset: 50460},
 											exprs: []interface{}{
@@ -37045,13 +37399,13 @@ var g = &grammar{
 														pos: position{line: 1561, col: 11, offset: 50466},
 														expr: &actionExpr{
 															pos: position{line: 1726, col: 5, offset: 55815},
-															run: (*parser).callonListContinuationElement1651,
+															run: (*parser).callonListContinuationElement1659,
 															expr: &seqExpr{
 																pos: position{line: 1726, col: 5, offset: 55815},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1726, col: 5, offset: 55815},
-																		run: (*parser).callonListContinuationElement1653,
+																		run: (*parser).callonListContinuationElement1661,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1729, col: 5, offset: 55878},
@@ -37061,7 +37415,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1729, col: 12, offset: 55885},
-																					run: (*parser).callonListContinuationElement1656,
+																					run: (*parser).callonListContinuationElement1664,
 																					expr: &litMatcher{
 																						pos:        position{line: 1729, col: 12, offset: 55885},
 																						val:        "TIP: ",
@@ -37071,7 +37425,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1731, col: 13, offset: 55941},
-																					run: (*parser).callonListContinuationElement1658,
+																					run: (*parser).callonListContinuationElement1666,
 																					expr: &litMatcher{
 																						pos:        position{line: 1731, col: 13, offset: 55941},
 																						val:        "NOTE: ",
@@ -37081,7 +37435,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1733, col: 13, offset: 55999},
-																					run: (*parser).callonListContinuationElement1660,
+																					run: (*parser).callonListContinuationElement1668,
 																					expr: &litMatcher{
 																						pos:        position{line: 1733, col: 13, offset: 55999},
 																						val:        "IMPORTANT: ",
@@ -37091,7 +37445,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1735, col: 13, offset: 56067},
-																					run: (*parser).callonListContinuationElement1662,
+																					run: (*parser).callonListContinuationElement1670,
 																					expr: &litMatcher{
 																						pos:        position{line: 1735, col: 13, offset: 56067},
 																						val:        "WARNING: ",
@@ -37101,7 +37455,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1737, col: 13, offset: 56131},
-																					run: (*parser).callonListContinuationElement1664,
+																					run: (*parser).callonListContinuationElement1672,
 																					expr: &litMatcher{
 																						pos:        position{line: 1737, col: 13, offset: 56131},
 																						val:        "CAUTION: ",
@@ -37111,12 +37465,12 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1739, col: 13, offset: 56195},
-																					run: (*parser).callonListContinuationElement1666,
+																					run: (*parser).callonListContinuationElement1674,
 																					expr: &andExpr{
 																						pos: position{line: 1739, col: 13, offset: 56195},
 																						expr: &actionExpr{
 																							pos: position{line: 2879, col: 11, offset: 91039},
-																							run: (*parser).callonListContinuationElement1668,
+																							run: (*parser).callonListContinuationElement1676,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 2879, col: 11, offset: 91039},
 																								expr: &charClassMatcher{
@@ -37142,7 +37496,7 @@ var g = &grammar{
 																					pos: position{line: 1742, col: 7, offset: 56282},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1674,
+																						run: (*parser).callonListContinuationElement1682,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -37157,7 +37511,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonListContinuationElement1677,
+																							run: (*parser).callonListContinuationElement1685,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -37203,7 +37557,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48839},
-														run: (*parser).callonListContinuationElement1685,
+														run: (*parser).callonListContinuationElement1693,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48839},
 															exprs: []interface{}{
@@ -37211,7 +37565,7 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48839},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21533},
-																		run: (*parser).callonListContinuationElement1688,
+																		run: (*parser).callonListContinuationElement1696,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21533},
 																			exprs: []interface{}{
@@ -37225,7 +37579,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21540},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1693,
+																						run: (*parser).callonListContinuationElement1701,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -37240,7 +37594,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2884, col: 12, offset: 91149},
-																							run: (*parser).callonListContinuationElement1696,
+																							run: (*parser).callonListContinuationElement1704,
 																							expr: &choiceExpr{
 																								pos: position{line: 2884, col: 13, offset: 91150},
 																								alternatives: []interface{}{
@@ -37292,7 +37646,7 @@ var g = &grammar{
 																				pos: position{line: 1536, col: 31, offset: 49684},
 																				expr: &actionExpr{
 																					pos: position{line: 2875, col: 10, offset: 90978},
-																					run: (*parser).callonListContinuationElement1707,
+																					run: (*parser).callonListContinuationElement1715,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2875, col: 10, offset: 90978},
 																						val:        "[\\t ]",
@@ -37307,7 +37661,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2884, col: 12, offset: 91149},
-																						run: (*parser).callonListContinuationElement1710,
+																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
 																							pos: position{line: 2884, col: 13, offset: 91150},
 																							alternatives: []interface{}{
@@ -37347,7 +37701,7 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48882},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50899},
-																		run: (*parser).callonListContinuationElement1718,
+																		run: (*parser).callonListContinuationElement1726,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50899},
 																			exprs: []interface{}{
@@ -37355,7 +37709,7 @@ var g = &grammar{
 																					pos: position{line: 1577, col: 5, offset: 50899},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1721,
+																						run: (*parser).callonListContinuationElement1729,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -37373,7 +37727,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50969},
-																								run: (*parser).callonListContinuationElement1725,
+																								run: (*parser).callonListContinuationElement1733,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50969},
 																									exprs: []interface{}{
@@ -37382,7 +37736,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50976},
-																												run: (*parser).callonListContinuationElement1728,
+																												run: (*parser).callonListContinuationElement1736,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50976},
 																													expr: &litMatcher{
@@ -37396,14 +37750,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51077},
-																											run: (*parser).callonListContinuationElement1731,
+																											run: (*parser).callonListContinuationElement1739,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51794},
-																								run: (*parser).callonListContinuationElement1732,
+																								run: (*parser).callonListContinuationElement1740,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51794},
 																									exprs: []interface{}{
@@ -37428,7 +37782,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51920},
-																								run: (*parser).callonListContinuationElement1737,
+																								run: (*parser).callonListContinuationElement1745,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51920},
 																									exprs: []interface{}{
@@ -37450,7 +37804,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52048},
-																								run: (*parser).callonListContinuationElement1741,
+																								run: (*parser).callonListContinuationElement1749,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52048},
 																									exprs: []interface{}{
@@ -37472,7 +37826,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52176},
-																								run: (*parser).callonListContinuationElement1745,
+																								run: (*parser).callonListContinuationElement1753,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52176},
 																									exprs: []interface{}{
@@ -37497,7 +37851,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52309},
-																								run: (*parser).callonListContinuationElement1750,
+																								run: (*parser).callonListContinuationElement1758,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52309},
 																									exprs: []interface{}{
@@ -37525,7 +37879,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1755,
+																					run: (*parser).callonListContinuationElement1763,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -37545,7 +37899,7 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48912},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52861},
-																		run: (*parser).callonListContinuationElement1759,
+																		run: (*parser).callonListContinuationElement1767,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52861},
 																			exprs: []interface{}{
@@ -37553,7 +37907,7 @@ var g = &grammar{
 																					pos: position{line: 1627, col: 5, offset: 52861},
 																					expr: &actionExpr{
 																						pos: position{line: 2875, col: 10, offset: 90978},
-																						run: (*parser).callonListContinuationElement1762,
+																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2875, col: 10, offset: 90978},
 																							val:        "[\\t ]",
@@ -37568,7 +37922,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52889},
-																						run: (*parser).callonListContinuationElement1765,
+																						run: (*parser).callonListContinuationElement1773,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52890},
 																							alternatives: []interface{}{
@@ -37593,11 +37947,11 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52989},
-																					run: (*parser).callonListContinuationElement1770,
+																					run: (*parser).callonListContinuationElement1778,
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1771,
+																					run: (*parser).callonListContinuationElement1779,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -37617,7 +37971,7 @@ var g = &grammar{
 																	pos: position{line: 1509, col: 5, offset: 48944},
 																	expr: &actionExpr{
 																		pos: position{line: 1717, col: 5, offset: 55430},
-																		run: (*parser).callonListContinuationElement1775,
+																		run: (*parser).callonListContinuationElement1783,
 																		expr: &seqExpr{
 																			pos: position{line: 1717, col: 5, offset: 55430},
 																			exprs: []interface{}{
@@ -37632,7 +37986,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1717, col: 14, offset: 55439},
-																						run: (*parser).callonListContinuationElement1779,
+																						run: (*parser).callonListContinuationElement1787,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1717, col: 14, offset: 55439},
 																							expr: &charClassMatcher{
@@ -37653,7 +38007,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2879, col: 11, offset: 91039},
-																					run: (*parser).callonListContinuationElement1783,
+																					run: (*parser).callonListContinuationElement1791,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2879, col: 11, offset: 91039},
 																						expr: &charClassMatcher{
@@ -37676,7 +38030,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53880},
-																				run: (*parser).callonListContinuationElement1788,
+																				run: (*parser).callonListContinuationElement1796,
 																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53880},
 																					exprs: []interface{}{
@@ -37712,7 +38066,7 @@ var g = &grammar{
 																										pos: position{line: 1663, col: 6, offset: 53913},
 																										expr: &actionExpr{
 																											pos: position{line: 1668, col: 5, offset: 54063},
-																											run: (*parser).callonListContinuationElement1798,
+																											run: (*parser).callonListContinuationElement1806,
 																											expr: &seqExpr{
 																												pos: position{line: 1668, col: 5, offset: 54063},
 																												exprs: []interface{}{
@@ -37721,7 +38075,7 @@ var g = &grammar{
 																														label: "separator",
 																														expr: &actionExpr{
 																															pos: position{line: 1668, col: 16, offset: 54074},
-																															run: (*parser).callonListContinuationElement1801,
+																															run: (*parser).callonListContinuationElement1809,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 1668, col: 16, offset: 54074},
 																																expr: &litMatcher{
@@ -37735,7 +38089,7 @@ var g = &grammar{
 																													},
 																													&andCodeExpr{
 																														pos: position{line: 1671, col: 5, offset: 54132},
-																														run: (*parser).callonListContinuationElement1804,
+																														run: (*parser).callonListContinuationElement1812,
 																													},
 																												},
 																											},
@@ -37748,7 +38102,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1807,
+																													run: (*parser).callonListContinuationElement1815,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37793,7 +38147,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1668, col: 5, offset: 54063},
-																				run: (*parser).callonListContinuationElement1815,
+																				run: (*parser).callonListContinuationElement1823,
 																				expr: &seqExpr{
 																					pos: position{line: 1668, col: 5, offset: 54063},
 																					exprs: []interface{}{
@@ -37802,7 +38156,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1668, col: 16, offset: 54074},
-																								run: (*parser).callonListContinuationElement1818,
+																								run: (*parser).callonListContinuationElement1826,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1668, col: 16, offset: 54074},
 																									expr: &litMatcher{
@@ -37816,7 +38170,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1671, col: 5, offset: 54132},
-																							run: (*parser).callonListContinuationElement1821,
+																							run: (*parser).callonListContinuationElement1829,
 																						},
 																					},
 																				},
@@ -37828,7 +38182,7 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 49032},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23086},
-																		run: (*parser).callonListContinuationElement1823,
+																		run: (*parser).callonListContinuationElement1831,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23086},
 																			exprs: []interface{}{
@@ -37849,30 +38203,30 @@ var g = &grammar{
 																						pos: position{line: 726, col: 9, offset: 23136},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23628},
-																								run: (*parser).callonListContinuationElement1829,
+																								pos: position{line: 740, col: 5, offset: 23515},
+																								run: (*parser).callonListContinuationElement1837,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23628},
+																									pos: position{line: 740, col: 5, offset: 23515},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23628},
+																											pos:   position{line: 740, col: 5, offset: 23515},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23639},
-																												run: (*parser).callonListContinuationElement1832,
+																												pos: position{line: 740, col: 16, offset: 23526},
+																												run: (*parser).callonListContinuationElement1840,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23639},
+																													pos: position{line: 740, col: 16, offset: 23526},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23639},
+																															pos:        position{line: 740, col: 16, offset: 23526},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23646},
+																															pos: position{line: 740, col: 23, offset: 23533},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23646},
+																																pos:        position{line: 740, col: 23, offset: 23533},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37883,10 +38237,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23730},
+																											pos: position{line: 742, col: 8, offset: 23617},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1838,
+																												run: (*parser).callonListContinuationElement1846,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37901,7 +38255,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1841,
+																													run: (*parser).callonListContinuationElement1849,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -37938,30 +38292,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23876},
-																								run: (*parser).callonListContinuationElement1848,
+																								pos: position{line: 747, col: 5, offset: 23763},
+																								run: (*parser).callonListContinuationElement1856,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23876},
+																									pos: position{line: 747, col: 5, offset: 23763},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23876},
+																											pos:   position{line: 747, col: 5, offset: 23763},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23887},
-																												run: (*parser).callonListContinuationElement1851,
+																												pos: position{line: 747, col: 16, offset: 23774},
+																												run: (*parser).callonListContinuationElement1859,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23887},
+																													pos: position{line: 747, col: 16, offset: 23774},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23887},
+																															pos:        position{line: 747, col: 16, offset: 23774},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23894},
+																															pos: position{line: 747, col: 23, offset: 23781},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23894},
+																																pos:        position{line: 747, col: 23, offset: 23781},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37972,10 +38326,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23978},
+																											pos: position{line: 749, col: 8, offset: 23865},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1857,
+																												run: (*parser).callonListContinuationElement1865,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -37990,7 +38344,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1860,
+																													run: (*parser).callonListContinuationElement1868,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38027,27 +38381,102 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24364},
-																								run: (*parser).callonListContinuationElement1867,
+																								pos: position{line: 776, col: 5, offset: 24792},
+																								run: (*parser).callonListContinuationElement1875,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24364},
+																									pos: position{line: 776, col: 5, offset: 24792},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 776, col: 5, offset: 24792},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 776, col: 16, offset: 24803},
+																												run: (*parser).callonListContinuationElement1878,
+																												expr: &litMatcher{
+																													pos:        position{line: 776, col: 16, offset: 24803},
+																													val:        "--",
+																													ignoreCase: false,
+																													want:       "\"--\"",
+																												},
+																											},
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 778, col: 8, offset: 24880},
+																											expr: &actionExpr{
+																												pos: position{line: 2875, col: 10, offset: 90978},
+																												run: (*parser).callonListContinuationElement1881,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2875, col: 10, offset: 90978},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
+																													ignoreCase: false,
+																													inverted:   false,
+																												},
+																											},
+																										},
+																										&choiceExpr{
+																											pos: position{line: 2897, col: 8, offset: 91376},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2884, col: 12, offset: 91149},
+																													run: (*parser).callonListContinuationElement1884,
+																													expr: &choiceExpr{
+																														pos: position{line: 2884, col: 13, offset: 91150},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 13, offset: 91150},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 20, offset: 91157},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2884, col: 29, offset: 91166},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2894, col: 8, offset: 91326},
+																													expr: &anyMatcher{
+																														line: 2894, col: 9, offset: 91327,
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 760, col: 26, offset: 24251},
+																								run: (*parser).callonListContinuationElement1891,
+																								expr: &seqExpr{
+																									pos: position{line: 760, col: 26, offset: 24251},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24364},
+																											pos:        position{line: 760, col: 26, offset: 24251},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24370},
+																											pos:   position{line: 760, col: 32, offset: 24257},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24500},
-																												run: (*parser).callonListContinuationElement1871,
+																												pos: position{line: 764, col: 13, offset: 24387},
+																												run: (*parser).callonListContinuationElement1895,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24501},
+																													pos: position{line: 764, col: 14, offset: 24388},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24501},
+																														pos:        position{line: 764, col: 14, offset: 24388},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38057,10 +38486,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24390},
+																											pos: position{line: 760, col: 52, offset: 24277},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1875,
+																												run: (*parser).callonListContinuationElement1899,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38075,7 +38504,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1878,
+																													run: (*parser).callonListContinuationElement1902,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38112,30 +38541,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24123},
-																								run: (*parser).callonListContinuationElement1885,
+																								pos: position{line: 754, col: 5, offset: 24010},
+																								run: (*parser).callonListContinuationElement1909,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24123},
+																									pos: position{line: 754, col: 5, offset: 24010},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24123},
+																											pos:   position{line: 754, col: 5, offset: 24010},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24134},
-																												run: (*parser).callonListContinuationElement1888,
+																												pos: position{line: 754, col: 16, offset: 24021},
+																												run: (*parser).callonListContinuationElement1912,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24134},
+																													pos: position{line: 754, col: 16, offset: 24021},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24134},
+																															pos:        position{line: 754, col: 16, offset: 24021},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24140},
+																															pos: position{line: 754, col: 22, offset: 24027},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24140},
+																																pos:        position{line: 754, col: 22, offset: 24027},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38146,10 +38575,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24224},
+																											pos: position{line: 756, col: 8, offset: 24111},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1894,
+																												run: (*parser).callonListContinuationElement1918,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38164,7 +38593,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1897,
+																													run: (*parser).callonListContinuationElement1921,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38201,30 +38630,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24660},
-																								run: (*parser).callonListContinuationElement1904,
+																								pos: position{line: 769, col: 5, offset: 24547},
+																								run: (*parser).callonListContinuationElement1928,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24660},
+																									pos: position{line: 769, col: 5, offset: 24547},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24660},
+																											pos:   position{line: 769, col: 5, offset: 24547},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24671},
-																												run: (*parser).callonListContinuationElement1907,
+																												pos: position{line: 769, col: 16, offset: 24558},
+																												run: (*parser).callonListContinuationElement1931,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24671},
+																													pos: position{line: 769, col: 16, offset: 24558},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24671},
+																															pos:        position{line: 769, col: 16, offset: 24558},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24678},
+																															pos: position{line: 769, col: 23, offset: 24565},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24678},
+																																pos:        position{line: 769, col: 23, offset: 24565},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38235,10 +38664,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24762},
+																											pos: position{line: 771, col: 8, offset: 24649},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1913,
+																												run: (*parser).callonListContinuationElement1937,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38253,7 +38682,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1916,
+																													run: (*parser).callonListContinuationElement1940,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38290,30 +38719,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25136},
-																								run: (*parser).callonListContinuationElement1923,
+																								pos: position{line: 783, col: 5, offset: 25023},
+																								run: (*parser).callonListContinuationElement1947,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25136},
+																									pos: position{line: 783, col: 5, offset: 25023},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25136},
+																											pos:   position{line: 783, col: 5, offset: 25023},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25147},
-																												run: (*parser).callonListContinuationElement1926,
+																												pos: position{line: 783, col: 16, offset: 25034},
+																												run: (*parser).callonListContinuationElement1950,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25147},
+																													pos: position{line: 783, col: 16, offset: 25034},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25147},
+																															pos:        position{line: 783, col: 16, offset: 25034},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25154},
+																															pos: position{line: 783, col: 23, offset: 25041},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25154},
+																																pos:        position{line: 783, col: 23, offset: 25041},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38324,10 +38753,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25238},
+																											pos: position{line: 785, col: 8, offset: 25125},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1932,
+																												run: (*parser).callonListContinuationElement1956,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38342,7 +38771,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1935,
+																													run: (*parser).callonListContinuationElement1959,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38379,30 +38808,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25388},
-																								run: (*parser).callonListContinuationElement1942,
+																								pos: position{line: 790, col: 5, offset: 25275},
+																								run: (*parser).callonListContinuationElement1966,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25388},
+																									pos: position{line: 790, col: 5, offset: 25275},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25388},
+																											pos:   position{line: 790, col: 5, offset: 25275},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25399},
-																												run: (*parser).callonListContinuationElement1945,
+																												pos: position{line: 790, col: 16, offset: 25286},
+																												run: (*parser).callonListContinuationElement1969,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25399},
+																													pos: position{line: 790, col: 16, offset: 25286},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25399},
+																															pos:        position{line: 790, col: 16, offset: 25286},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25406},
+																															pos: position{line: 790, col: 23, offset: 25293},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25406},
+																																pos:        position{line: 790, col: 23, offset: 25293},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38413,10 +38842,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25490},
+																											pos: position{line: 792, col: 8, offset: 25377},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1951,
+																												run: (*parser).callonListContinuationElement1975,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38431,7 +38860,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1954,
+																													run: (*parser).callonListContinuationElement1978,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38468,30 +38897,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25638},
-																								run: (*parser).callonListContinuationElement1961,
+																								pos: position{line: 797, col: 5, offset: 25525},
+																								run: (*parser).callonListContinuationElement1985,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25638},
+																									pos: position{line: 797, col: 5, offset: 25525},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25638},
+																											pos:   position{line: 797, col: 5, offset: 25525},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25649},
-																												run: (*parser).callonListContinuationElement1964,
+																												pos: position{line: 797, col: 16, offset: 25536},
+																												run: (*parser).callonListContinuationElement1988,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25649},
+																													pos: position{line: 797, col: 16, offset: 25536},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25649},
+																															pos:        position{line: 797, col: 16, offset: 25536},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25656},
+																															pos: position{line: 797, col: 23, offset: 25543},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25656},
+																																pos:        position{line: 797, col: 23, offset: 25543},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38502,10 +38931,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25740},
+																											pos: position{line: 799, col: 8, offset: 25627},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1970,
+																												run: (*parser).callonListContinuationElement1994,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38520,7 +38949,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1973,
+																													run: (*parser).callonListContinuationElement1997,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38557,30 +38986,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25884},
-																								run: (*parser).callonListContinuationElement1980,
+																								pos: position{line: 804, col: 5, offset: 25771},
+																								run: (*parser).callonListContinuationElement2004,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25884},
+																									pos: position{line: 804, col: 5, offset: 25771},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25884},
+																											pos:   position{line: 804, col: 5, offset: 25771},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25895},
-																												run: (*parser).callonListContinuationElement1983,
+																												pos: position{line: 804, col: 16, offset: 25782},
+																												run: (*parser).callonListContinuationElement2007,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25895},
+																													pos: position{line: 804, col: 16, offset: 25782},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25895},
+																															pos:        position{line: 804, col: 16, offset: 25782},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25902},
+																															pos: position{line: 804, col: 23, offset: 25789},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25902},
+																																pos:        position{line: 804, col: 23, offset: 25789},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38591,10 +39020,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25986},
+																											pos: position{line: 806, col: 8, offset: 25873},
 																											expr: &actionExpr{
 																												pos: position{line: 2875, col: 10, offset: 90978},
-																												run: (*parser).callonListContinuationElement1989,
+																												run: (*parser).callonListContinuationElement2013,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2875, col: 10, offset: 90978},
 																													val:        "[\\t ]",
@@ -38609,7 +39038,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2884, col: 12, offset: 91149},
-																													run: (*parser).callonListContinuationElement1992,
+																													run: (*parser).callonListContinuationElement2016,
 																													expr: &choiceExpr{
 																														pos: position{line: 2884, col: 13, offset: 91150},
 																														alternatives: []interface{}{
@@ -38657,7 +39086,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2825, col: 14, offset: 89571},
-																		run: (*parser).callonListContinuationElement2000,
+																		run: (*parser).callonListContinuationElement2024,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
 																			expr: &charClassMatcher{
@@ -38675,7 +39104,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2884, col: 12, offset: 91149},
-																			run: (*parser).callonListContinuationElement2004,
+																			run: (*parser).callonListContinuationElement2028,
 																			expr: &choiceExpr{
 																				pos: position{line: 2884, col: 13, offset: 91150},
 																				alternatives: []interface{}{
@@ -39237,30 +39666,30 @@ var g = &grammar{
 																	pos: position{line: 726, col: 9, offset: 23136},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23628},
+																			pos: position{line: 740, col: 5, offset: 23515},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23628},
+																				pos: position{line: 740, col: 5, offset: 23515},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23628},
+																						pos:   position{line: 740, col: 5, offset: 23515},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23639},
+																							pos: position{line: 740, col: 16, offset: 23526},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23639},
+																								pos: position{line: 740, col: 16, offset: 23526},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23639},
+																										pos:        position{line: 740, col: 16, offset: 23526},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23646},
+																										pos: position{line: 740, col: 23, offset: 23533},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23646},
+																											pos:        position{line: 740, col: 23, offset: 23533},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39271,7 +39700,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23730},
+																						pos: position{line: 742, col: 8, offset: 23617},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph104,
@@ -39326,30 +39755,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23876},
+																			pos: position{line: 747, col: 5, offset: 23763},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23876},
+																				pos: position{line: 747, col: 5, offset: 23763},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23876},
+																						pos:   position{line: 747, col: 5, offset: 23763},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23887},
+																							pos: position{line: 747, col: 16, offset: 23774},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23887},
+																								pos: position{line: 747, col: 16, offset: 23774},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23887},
+																										pos:        position{line: 747, col: 16, offset: 23774},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23894},
+																										pos: position{line: 747, col: 23, offset: 23781},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23894},
+																											pos:        position{line: 747, col: 23, offset: 23781},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39360,7 +39789,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23978},
+																						pos: position{line: 749, col: 8, offset: 23865},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
 																							run: (*parser).callonShortcutParagraph123,
@@ -39415,27 +39844,102 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24364},
+																			pos: position{line: 776, col: 5, offset: 24792},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24364},
+																				pos: position{line: 776, col: 5, offset: 24792},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 776, col: 5, offset: 24792},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 776, col: 16, offset: 24803},
+																							run: (*parser).callonShortcutParagraph136,
+																							expr: &litMatcher{
+																								pos:        position{line: 776, col: 16, offset: 24803},
+																								val:        "--",
+																								ignoreCase: false,
+																								want:       "\"--\"",
+																							},
+																						},
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 778, col: 8, offset: 24880},
+																						expr: &actionExpr{
+																							pos: position{line: 2875, col: 10, offset: 90978},
+																							run: (*parser).callonShortcutParagraph139,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2875, col: 10, offset: 90978},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																					&choiceExpr{
+																						pos: position{line: 2897, col: 8, offset: 91376},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 2884, col: 12, offset: 91149},
+																								run: (*parser).callonShortcutParagraph142,
+																								expr: &choiceExpr{
+																									pos: position{line: 2884, col: 13, offset: 91150},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 13, offset: 91150},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 20, offset: 91157},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2884, col: 29, offset: 91166},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
+																							},
+																							&notExpr{
+																								pos: position{line: 2894, col: 8, offset: 91326},
+																								expr: &anyMatcher{
+																									line: 2894, col: 9, offset: 91327,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																		&actionExpr{
+																			pos: position{line: 760, col: 26, offset: 24251},
+																			run: (*parser).callonShortcutParagraph149,
+																			expr: &seqExpr{
+																				pos: position{line: 760, col: 26, offset: 24251},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24364},
+																						pos:        position{line: 760, col: 26, offset: 24251},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24370},
+																						pos:   position{line: 760, col: 32, offset: 24257},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24500},
-																							run: (*parser).callonShortcutParagraph137,
+																							pos: position{line: 764, col: 13, offset: 24387},
+																							run: (*parser).callonShortcutParagraph153,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24501},
+																								pos: position{line: 764, col: 14, offset: 24388},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24501},
+																									pos:        position{line: 764, col: 14, offset: 24388},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39445,10 +39949,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24390},
+																						pos: position{line: 760, col: 52, offset: 24277},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph141,
+																							run: (*parser).callonShortcutParagraph157,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39463,7 +39967,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph144,
+																								run: (*parser).callonShortcutParagraph160,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -39500,30 +40004,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24123},
-																			run: (*parser).callonShortcutParagraph151,
+																			pos: position{line: 754, col: 5, offset: 24010},
+																			run: (*parser).callonShortcutParagraph167,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24123},
+																				pos: position{line: 754, col: 5, offset: 24010},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24123},
+																						pos:   position{line: 754, col: 5, offset: 24010},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24134},
-																							run: (*parser).callonShortcutParagraph154,
+																							pos: position{line: 754, col: 16, offset: 24021},
+																							run: (*parser).callonShortcutParagraph170,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24134},
+																								pos: position{line: 754, col: 16, offset: 24021},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24134},
+																										pos:        position{line: 754, col: 16, offset: 24021},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24140},
+																										pos: position{line: 754, col: 22, offset: 24027},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24140},
+																											pos:        position{line: 754, col: 22, offset: 24027},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39534,10 +40038,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24224},
+																						pos: position{line: 756, col: 8, offset: 24111},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph160,
+																							run: (*parser).callonShortcutParagraph176,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39552,7 +40056,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph163,
+																								run: (*parser).callonShortcutParagraph179,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -39589,30 +40093,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24660},
-																			run: (*parser).callonShortcutParagraph170,
+																			pos: position{line: 769, col: 5, offset: 24547},
+																			run: (*parser).callonShortcutParagraph186,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24660},
+																				pos: position{line: 769, col: 5, offset: 24547},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24660},
+																						pos:   position{line: 769, col: 5, offset: 24547},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24671},
-																							run: (*parser).callonShortcutParagraph173,
+																							pos: position{line: 769, col: 16, offset: 24558},
+																							run: (*parser).callonShortcutParagraph189,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24671},
+																								pos: position{line: 769, col: 16, offset: 24558},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24671},
+																										pos:        position{line: 769, col: 16, offset: 24558},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24678},
+																										pos: position{line: 769, col: 23, offset: 24565},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24678},
+																											pos:        position{line: 769, col: 23, offset: 24565},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39623,10 +40127,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24762},
+																						pos: position{line: 771, col: 8, offset: 24649},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph179,
+																							run: (*parser).callonShortcutParagraph195,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39641,7 +40145,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph182,
+																								run: (*parser).callonShortcutParagraph198,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -39678,30 +40182,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25136},
-																			run: (*parser).callonShortcutParagraph189,
+																			pos: position{line: 783, col: 5, offset: 25023},
+																			run: (*parser).callonShortcutParagraph205,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25136},
+																				pos: position{line: 783, col: 5, offset: 25023},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25136},
+																						pos:   position{line: 783, col: 5, offset: 25023},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25147},
-																							run: (*parser).callonShortcutParagraph192,
+																							pos: position{line: 783, col: 16, offset: 25034},
+																							run: (*parser).callonShortcutParagraph208,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25147},
+																								pos: position{line: 783, col: 16, offset: 25034},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25147},
+																										pos:        position{line: 783, col: 16, offset: 25034},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25154},
+																										pos: position{line: 783, col: 23, offset: 25041},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25154},
+																											pos:        position{line: 783, col: 23, offset: 25041},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39712,10 +40216,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25238},
+																						pos: position{line: 785, col: 8, offset: 25125},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph198,
+																							run: (*parser).callonShortcutParagraph214,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39730,7 +40234,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph201,
+																								run: (*parser).callonShortcutParagraph217,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -39767,30 +40271,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25388},
-																			run: (*parser).callonShortcutParagraph208,
+																			pos: position{line: 790, col: 5, offset: 25275},
+																			run: (*parser).callonShortcutParagraph224,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25388},
+																				pos: position{line: 790, col: 5, offset: 25275},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25388},
+																						pos:   position{line: 790, col: 5, offset: 25275},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25399},
-																							run: (*parser).callonShortcutParagraph211,
+																							pos: position{line: 790, col: 16, offset: 25286},
+																							run: (*parser).callonShortcutParagraph227,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25399},
+																								pos: position{line: 790, col: 16, offset: 25286},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25399},
+																										pos:        position{line: 790, col: 16, offset: 25286},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25406},
+																										pos: position{line: 790, col: 23, offset: 25293},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25406},
+																											pos:        position{line: 790, col: 23, offset: 25293},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39801,10 +40305,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25490},
+																						pos: position{line: 792, col: 8, offset: 25377},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph217,
+																							run: (*parser).callonShortcutParagraph233,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39819,7 +40323,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph220,
+																								run: (*parser).callonShortcutParagraph236,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -39856,30 +40360,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25638},
-																			run: (*parser).callonShortcutParagraph227,
+																			pos: position{line: 797, col: 5, offset: 25525},
+																			run: (*parser).callonShortcutParagraph243,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25638},
+																				pos: position{line: 797, col: 5, offset: 25525},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25638},
+																						pos:   position{line: 797, col: 5, offset: 25525},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25649},
-																							run: (*parser).callonShortcutParagraph230,
+																							pos: position{line: 797, col: 16, offset: 25536},
+																							run: (*parser).callonShortcutParagraph246,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25649},
+																								pos: position{line: 797, col: 16, offset: 25536},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25649},
+																										pos:        position{line: 797, col: 16, offset: 25536},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25656},
+																										pos: position{line: 797, col: 23, offset: 25543},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25656},
+																											pos:        position{line: 797, col: 23, offset: 25543},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39890,10 +40394,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25740},
+																						pos: position{line: 799, col: 8, offset: 25627},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph236,
+																							run: (*parser).callonShortcutParagraph252,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39908,7 +40412,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph239,
+																								run: (*parser).callonShortcutParagraph255,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -39945,30 +40449,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25884},
-																			run: (*parser).callonShortcutParagraph246,
+																			pos: position{line: 804, col: 5, offset: 25771},
+																			run: (*parser).callonShortcutParagraph262,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25884},
+																				pos: position{line: 804, col: 5, offset: 25771},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25884},
+																						pos:   position{line: 804, col: 5, offset: 25771},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25895},
-																							run: (*parser).callonShortcutParagraph249,
+																							pos: position{line: 804, col: 16, offset: 25782},
+																							run: (*parser).callonShortcutParagraph265,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25895},
+																								pos: position{line: 804, col: 16, offset: 25782},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25895},
+																										pos:        position{line: 804, col: 16, offset: 25782},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25902},
+																										pos: position{line: 804, col: 23, offset: 25789},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25902},
+																											pos:        position{line: 804, col: 23, offset: 25789},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39979,10 +40483,10 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25986},
+																						pos: position{line: 806, col: 8, offset: 25873},
 																						expr: &actionExpr{
 																							pos: position{line: 2875, col: 10, offset: 90978},
-																							run: (*parser).callonShortcutParagraph255,
+																							run: (*parser).callonShortcutParagraph271,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2875, col: 10, offset: 90978},
 																								val:        "[\\t ]",
@@ -39997,7 +40501,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2884, col: 12, offset: 91149},
-																								run: (*parser).callonShortcutParagraph258,
+																								run: (*parser).callonShortcutParagraph274,
 																								expr: &choiceExpr{
 																									pos: position{line: 2884, col: 13, offset: 91150},
 																									alternatives: []interface{}{
@@ -40055,7 +40559,7 @@ var g = &grammar{
 															pos: position{line: 1536, col: 31, offset: 49684},
 															expr: &actionExpr{
 																pos: position{line: 2875, col: 10, offset: 90978},
-																run: (*parser).callonShortcutParagraph269,
+																run: (*parser).callonShortcutParagraph285,
 																expr: &charClassMatcher{
 																	pos:        position{line: 2875, col: 10, offset: 90978},
 																	val:        "[\\t ]",
@@ -40070,7 +40574,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 2884, col: 12, offset: 91149},
-																	run: (*parser).callonShortcutParagraph272,
+																	run: (*parser).callonShortcutParagraph288,
 																	expr: &choiceExpr{
 																		pos: position{line: 2884, col: 13, offset: 91150},
 																		alternatives: []interface{}{
@@ -40114,7 +40618,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2482, col: 22, offset: 79892},
-															run: (*parser).callonShortcutParagraph281,
+															run: (*parser).callonShortcutParagraph297,
 															expr: &seqExpr{
 																pos: position{line: 2482, col: 22, offset: 79892},
 																exprs: []interface{}{
@@ -40138,7 +40642,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2821, col: 13, offset: 89504},
-																			run: (*parser).callonShortcutParagraph287,
+																			run: (*parser).callonShortcutParagraph303,
 																			expr: &zeroOrMoreExpr{
 																				pos: position{line: 2821, col: 13, offset: 89504},
 																				expr: &charClassMatcher{
@@ -40156,7 +40660,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonShortcutParagraph291,
+																				run: (*parser).callonShortcutParagraph307,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -40194,7 +40698,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1786, col: 5, offset: 57743},
-															run: (*parser).callonShortcutParagraph298,
+															run: (*parser).callonShortcutParagraph314,
 															expr: &seqExpr{
 																pos: position{line: 1786, col: 5, offset: 57743},
 																exprs: []interface{}{
@@ -40203,7 +40707,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2825, col: 14, offset: 89571},
-																			run: (*parser).callonShortcutParagraph301,
+																			run: (*parser).callonShortcutParagraph317,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 2825, col: 14, offset: 89571},
 																				expr: &charClassMatcher{
@@ -40218,14 +40722,14 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1787, col: 5, offset: 57767},
-																		run: (*parser).callonShortcutParagraph304,
+																		run: (*parser).callonShortcutParagraph320,
 																	},
 																	&choiceExpr{
 																		pos: position{line: 2897, col: 8, offset: 91376},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2884, col: 12, offset: 91149},
-																				run: (*parser).callonShortcutParagraph306,
+																				run: (*parser).callonShortcutParagraph322,
 																				expr: &choiceExpr{
 																					pos: position{line: 2884, col: 13, offset: 91150},
 																					alternatives: []interface{}{
@@ -50234,330 +50738,377 @@ func (p *parser) callonDocumentRawLine359() (interface{}, error) {
 	return p.cur.onDocumentRawLine359(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine382() (interface{}, error) {
+func (c *current) onDocumentRawLine381() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentRawLine381() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine381()
+}
+
+func (c *current) onDocumentRawLine384() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentRawLine384() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine384()
+}
+
+func (c *current) onDocumentRawLine387() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentRawLine387() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine387()
+}
+
+func (c *current) onDocumentRawLine378(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentRawLine378() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine378(stack["delimiter"])
+}
+
+func (c *current) onDocumentRawLine398() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine382() (interface{}, error) {
+func (p *parser) callonDocumentRawLine398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine382()
+	return p.cur.onDocumentRawLine398()
 }
 
-func (c *current) onDocumentRawLine386() (interface{}, error) {
+func (c *current) onDocumentRawLine402() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine386() (interface{}, error) {
+func (p *parser) callonDocumentRawLine402() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine386()
+	return p.cur.onDocumentRawLine402()
 }
 
-func (c *current) onDocumentRawLine389() (interface{}, error) {
+func (c *current) onDocumentRawLine405() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine389() (interface{}, error) {
+func (p *parser) callonDocumentRawLine405() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine389()
+	return p.cur.onDocumentRawLine405()
 }
 
-func (c *current) onDocumentRawLine378(language interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine394(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonDocumentRawLine378() (interface{}, error) {
+func (p *parser) callonDocumentRawLine394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine378(stack["language"])
+	return p.cur.onDocumentRawLine394(stack["language"])
 }
 
-func (c *current) onDocumentRawLine399() (interface{}, error) {
+func (c *current) onDocumentRawLine415() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine399() (interface{}, error) {
+func (p *parser) callonDocumentRawLine415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine399()
+	return p.cur.onDocumentRawLine415()
 }
 
-func (c *current) onDocumentRawLine405() (interface{}, error) {
+func (c *current) onDocumentRawLine421() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine405() (interface{}, error) {
+func (p *parser) callonDocumentRawLine421() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine405()
+	return p.cur.onDocumentRawLine421()
 }
 
-func (c *current) onDocumentRawLine408() (interface{}, error) {
+func (c *current) onDocumentRawLine424() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine408() (interface{}, error) {
+func (p *parser) callonDocumentRawLine424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine408()
+	return p.cur.onDocumentRawLine424()
 }
 
-func (c *current) onDocumentRawLine396(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine412(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine396() (interface{}, error) {
+func (p *parser) callonDocumentRawLine412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine396(stack["delimiter"])
+	return p.cur.onDocumentRawLine412(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine418() (interface{}, error) {
+func (c *current) onDocumentRawLine434() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine418() (interface{}, error) {
+func (p *parser) callonDocumentRawLine434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine418()
+	return p.cur.onDocumentRawLine434()
 }
 
-func (c *current) onDocumentRawLine424() (interface{}, error) {
+func (c *current) onDocumentRawLine440() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine424() (interface{}, error) {
+func (p *parser) callonDocumentRawLine440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine424()
+	return p.cur.onDocumentRawLine440()
 }
 
-func (c *current) onDocumentRawLine427() (interface{}, error) {
+func (c *current) onDocumentRawLine443() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine427() (interface{}, error) {
+func (p *parser) callonDocumentRawLine443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine427()
+	return p.cur.onDocumentRawLine443()
 }
 
-func (c *current) onDocumentRawLine415(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine431(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine415() (interface{}, error) {
+func (p *parser) callonDocumentRawLine431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine415(stack["delimiter"])
+	return p.cur.onDocumentRawLine431(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine437() (interface{}, error) {
+func (c *current) onDocumentRawLine453() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine437() (interface{}, error) {
+func (p *parser) callonDocumentRawLine453() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine437()
+	return p.cur.onDocumentRawLine453()
 }
 
-func (c *current) onDocumentRawLine443() (interface{}, error) {
+func (c *current) onDocumentRawLine459() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine443() (interface{}, error) {
+func (p *parser) callonDocumentRawLine459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine443()
+	return p.cur.onDocumentRawLine459()
 }
 
-func (c *current) onDocumentRawLine446() (interface{}, error) {
+func (c *current) onDocumentRawLine462() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine446() (interface{}, error) {
+func (p *parser) callonDocumentRawLine462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine446()
+	return p.cur.onDocumentRawLine462()
 }
 
-func (c *current) onDocumentRawLine434(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine450(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine434() (interface{}, error) {
+func (p *parser) callonDocumentRawLine450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine434(stack["delimiter"])
+	return p.cur.onDocumentRawLine450(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine456() (interface{}, error) {
+func (c *current) onDocumentRawLine472() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine456() (interface{}, error) {
+func (p *parser) callonDocumentRawLine472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine456()
+	return p.cur.onDocumentRawLine472()
 }
 
-func (c *current) onDocumentRawLine462() (interface{}, error) {
+func (c *current) onDocumentRawLine478() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine462() (interface{}, error) {
+func (p *parser) callonDocumentRawLine478() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine462()
+	return p.cur.onDocumentRawLine478()
 }
 
-func (c *current) onDocumentRawLine465() (interface{}, error) {
+func (c *current) onDocumentRawLine481() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine465() (interface{}, error) {
+func (p *parser) callonDocumentRawLine481() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine465()
+	return p.cur.onDocumentRawLine481()
 }
 
-func (c *current) onDocumentRawLine453(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine469(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine453() (interface{}, error) {
+func (p *parser) callonDocumentRawLine469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine453(stack["delimiter"])
+	return p.cur.onDocumentRawLine469(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine475() (interface{}, error) {
+func (c *current) onDocumentRawLine491() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine475() (interface{}, error) {
+func (p *parser) callonDocumentRawLine491() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine475()
+	return p.cur.onDocumentRawLine491()
 }
 
-func (c *current) onDocumentRawLine481() (interface{}, error) {
+func (c *current) onDocumentRawLine497() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine481() (interface{}, error) {
+func (p *parser) callonDocumentRawLine497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine481()
+	return p.cur.onDocumentRawLine497()
 }
 
-func (c *current) onDocumentRawLine484() (interface{}, error) {
+func (c *current) onDocumentRawLine500() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine484() (interface{}, error) {
+func (p *parser) callonDocumentRawLine500() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine484()
+	return p.cur.onDocumentRawLine500()
 }
 
-func (c *current) onDocumentRawLine472(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine488(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine472() (interface{}, error) {
+func (p *parser) callonDocumentRawLine488() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine472(stack["delimiter"])
+	return p.cur.onDocumentRawLine488(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine494() (interface{}, error) {
+func (c *current) onDocumentRawLine510() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine494() (interface{}, error) {
+func (p *parser) callonDocumentRawLine510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine494()
+	return p.cur.onDocumentRawLine510()
 }
 
-func (c *current) onDocumentRawLine500() (interface{}, error) {
+func (c *current) onDocumentRawLine516() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine500() (interface{}, error) {
+func (p *parser) callonDocumentRawLine516() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine500()
+	return p.cur.onDocumentRawLine516()
 }
 
-func (c *current) onDocumentRawLine503() (interface{}, error) {
+func (c *current) onDocumentRawLine519() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine503() (interface{}, error) {
+func (p *parser) callonDocumentRawLine519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine503()
+	return p.cur.onDocumentRawLine519()
 }
 
-func (c *current) onDocumentRawLine491(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine507(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine491() (interface{}, error) {
+func (p *parser) callonDocumentRawLine507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine491(stack["delimiter"])
+	return p.cur.onDocumentRawLine507(stack["delimiter"])
 }
 
 func (c *current) onDocumentRawLine334(delimiter interface{}) (interface{}, error) {
@@ -50571,89 +51122,89 @@ func (p *parser) callonDocumentRawLine334() (interface{}, error) {
 	return p.cur.onDocumentRawLine334(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine512() (bool, error) {
+func (c *current) onDocumentRawLine528() (bool, error) {
 	// should only be enabled when reading files to include, not the main (root) file
 	return c.isSectionEnabled(), nil
 
 }
 
-func (p *parser) callonDocumentRawLine512() (bool, error) {
+func (p *parser) callonDocumentRawLine528() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine512()
+	return p.cur.onDocumentRawLine528()
 }
 
-func (c *current) onDocumentRawLine513() (bool, error) {
+func (c *current) onDocumentRawLine529() (bool, error) {
 
 	return !c.isWithinDelimitedBlock(), nil
 
 }
 
-func (p *parser) callonDocumentRawLine513() (bool, error) {
+func (p *parser) callonDocumentRawLine529() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine513()
+	return p.cur.onDocumentRawLine529()
 }
 
-func (c *current) onDocumentRawLine515() (interface{}, error) {
+func (c *current) onDocumentRawLine531() (interface{}, error) {
 
 	// `=` is level 0, `==` is level 1, etc.
 	return (len(c.text) - 1), nil
 
 }
 
-func (p *parser) callonDocumentRawLine515() (interface{}, error) {
+func (p *parser) callonDocumentRawLine531() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine515()
+	return p.cur.onDocumentRawLine531()
 }
 
-func (c *current) onDocumentRawLine518(level interface{}) (bool, error) {
+func (c *current) onDocumentRawLine534(level interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `=` (level 0) to `======` (level 5) are allowed
 	return level.(int) <= 5, nil
 
 }
 
-func (p *parser) callonDocumentRawLine518() (bool, error) {
+func (p *parser) callonDocumentRawLine534() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine518(stack["level"])
+	return p.cur.onDocumentRawLine534(stack["level"])
 }
 
-func (c *current) onDocumentRawLine519(level interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine535(level interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine519() (interface{}, error) {
+func (p *parser) callonDocumentRawLine535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine519(stack["level"])
+	return p.cur.onDocumentRawLine535(stack["level"])
 }
 
-func (c *current) onDocumentRawLine522(level interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine538(level interface{}) (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine522() (interface{}, error) {
+func (p *parser) callonDocumentRawLine538() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine522(stack["level"])
+	return p.cur.onDocumentRawLine538(stack["level"])
 }
 
-func (c *current) onDocumentRawLine510(level interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine526(level interface{}) (interface{}, error) {
 	return types.NewRawSection(level.(int), string(c.text)) // just retain the raw content
 
 }
 
-func (p *parser) callonDocumentRawLine510() (interface{}, error) {
+func (p *parser) callonDocumentRawLine526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine510(stack["level"])
+	return p.cur.onDocumentRawLine526(stack["level"])
 }
 
 func (c *current) onDocumentRawLine1(element interface{}) (interface{}, error) {
@@ -51672,2382 +52223,2402 @@ func (p *parser) callonDocumentFragment58() (interface{}, error) {
 	return p.cur.onDocumentFragment58()
 }
 
-func (c *current) onDocumentFragment80() (interface{}, error) {
-	// sequence of 4 "/" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment80() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment80()
-}
-
-func (c *current) onDocumentFragment86() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment86()
-}
-
-func (c *current) onDocumentFragment89() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment89() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment89()
-}
-
-func (c *current) onDocumentFragment77(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment77() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment77(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment105() (interface{}, error) {
+func (c *current) onDocumentFragment81() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment105() (interface{}, error) {
+func (p *parser) callonDocumentFragment81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment105()
+	return p.cur.onDocumentFragment81()
 }
 
-func (c *current) onDocumentFragment111() (interface{}, error) {
+func (c *current) onDocumentFragment87() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment111() (interface{}, error) {
+func (p *parser) callonDocumentFragment87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment111()
+	return p.cur.onDocumentFragment87()
 }
 
-func (c *current) onDocumentFragment114() (interface{}, error) {
+func (c *current) onDocumentFragment90() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment114() (interface{}, error) {
+func (p *parser) callonDocumentFragment90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment114()
+	return p.cur.onDocumentFragment90()
 }
 
-func (c *current) onDocumentFragment102(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment78(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment102() (interface{}, error) {
+func (p *parser) callonDocumentFragment78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment102(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment129() (interface{}, error) {
-
-	return string(c.text), nil
-
+	return p.cur.onDocumentFragment78(stack["delimiter"])
 }
 
-func (p *parser) callonDocumentFragment129() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment129()
-}
-
-func (c *current) onDocumentFragment133() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment133() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment133()
-}
-
-func (c *current) onDocumentFragment124(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonDocumentFragment124() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment124(stack["content"])
-}
-
-func (c *current) onDocumentFragment98(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment97(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment98() (interface{}, error) {
+func (p *parser) callonDocumentFragment97() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment98(stack["line"])
+	return p.cur.onDocumentFragment97(stack["start"])
 }
 
-func (c *current) onDocumentFragment145() (interface{}, error) {
+func (c *current) onDocumentFragment109() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment145() (interface{}, error) {
+func (p *parser) callonDocumentFragment109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment145()
+	return p.cur.onDocumentFragment109()
 }
 
-func (c *current) onDocumentFragment151() (interface{}, error) {
+func (c *current) onDocumentFragment115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment151() (interface{}, error) {
+func (p *parser) callonDocumentFragment115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment151()
+	return p.cur.onDocumentFragment115()
 }
 
-func (c *current) onDocumentFragment154() (interface{}, error) {
+func (c *current) onDocumentFragment118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment154() (interface{}, error) {
+func (p *parser) callonDocumentFragment118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment154()
+	return p.cur.onDocumentFragment118()
 }
 
-func (c *current) onDocumentFragment142(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment142() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment142(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment75(delimiter, content interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
-
-}
-
-func (p *parser) callonDocumentFragment75() (interface{}, error) {
+func (p *parser) callonDocumentFragment106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment75(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentFragment106(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment169() (interface{}, error) {
-	// sequence of 4 "=" chars or more
-	return string(c.text), nil
-
+func (c *current) onDocumentFragment125(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 }
 
-func (p *parser) callonDocumentFragment169() (interface{}, error) {
+func (p *parser) callonDocumentFragment125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment169()
+	return p.cur.onDocumentFragment125(stack["end"])
 }
 
-func (c *current) onDocumentFragment175() (interface{}, error) {
+func (c *current) onDocumentFragment134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment175() (interface{}, error) {
+func (p *parser) callonDocumentFragment134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment175()
+	return p.cur.onDocumentFragment134()
 }
 
-func (c *current) onDocumentFragment178() (interface{}, error) {
+func (c *current) onDocumentFragment138() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment178() (interface{}, error) {
+func (p *parser) callonDocumentFragment138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment178()
+	return p.cur.onDocumentFragment138()
 }
 
-func (c *current) onDocumentFragment166(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment129(content interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment166() (interface{}, error) {
+func (p *parser) callonDocumentFragment129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment166(stack["delimiter"])
+	return p.cur.onDocumentFragment129(stack["content"])
 }
 
-func (c *current) onDocumentFragment185(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+func (c *current) onDocumentFragment100(line interface{}) (interface{}, error) {
+	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment185() (bool, error) {
+func (p *parser) callonDocumentFragment100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment185(stack["start"])
+	return p.cur.onDocumentFragment100(stack["line"])
 }
 
-func (c *current) onDocumentFragment197() (interface{}, error) {
-	// sequence of 4 "=" chars or more
+func (c *current) onDocumentFragment152() (interface{}, error) {
+	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment197() (interface{}, error) {
+func (p *parser) callonDocumentFragment152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment197()
+	return p.cur.onDocumentFragment152()
 }
 
-func (c *current) onDocumentFragment203() (interface{}, error) {
+func (c *current) onDocumentFragment158() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment203() (interface{}, error) {
+func (p *parser) callonDocumentFragment158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment203()
+	return p.cur.onDocumentFragment158()
 }
 
-func (c *current) onDocumentFragment206() (interface{}, error) {
+func (c *current) onDocumentFragment161() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment206() (interface{}, error) {
+func (p *parser) callonDocumentFragment161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment206()
+	return p.cur.onDocumentFragment161()
 }
 
-func (c *current) onDocumentFragment194(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment149(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment194() (interface{}, error) {
+func (p *parser) callonDocumentFragment149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment194(stack["delimiter"])
+	return p.cur.onDocumentFragment149(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment213(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment168(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
-}
-
-func (p *parser) callonDocumentFragment213() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment213(stack["end"])
-}
-
-func (c *current) onDocumentFragment222() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment222() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment222()
-}
-
-func (c *current) onDocumentFragment226() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment226() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment226()
-}
-
-func (c *current) onDocumentFragment217(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
 }
 
-func (p *parser) callonDocumentFragment217() (interface{}, error) {
+func (p *parser) callonDocumentFragment168() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment217(stack["content"])
+	return p.cur.onDocumentFragment168(stack["end"])
 }
 
-func (c *current) onDocumentFragment188(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment75(start, content interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment188() (interface{}, error) {
+func (p *parser) callonDocumentFragment75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment188(stack["line"])
+	return p.cur.onDocumentFragment75(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentFragment241() (interface{}, error) {
+func (c *current) onDocumentFragment177() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment241() (interface{}, error) {
+func (p *parser) callonDocumentFragment177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment241()
+	return p.cur.onDocumentFragment177()
 }
 
-func (c *current) onDocumentFragment247() (interface{}, error) {
+func (c *current) onDocumentFragment183() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment247() (interface{}, error) {
+func (p *parser) callonDocumentFragment183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment247()
+	return p.cur.onDocumentFragment183()
 }
 
-func (c *current) onDocumentFragment250() (interface{}, error) {
+func (c *current) onDocumentFragment186() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment250() (interface{}, error) {
+func (p *parser) callonDocumentFragment186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment250()
+	return p.cur.onDocumentFragment186()
 }
 
-func (c *current) onDocumentFragment238(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment174(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment238() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment238(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment257(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
-}
-
-func (p *parser) callonDocumentFragment257() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment257(stack["end"])
-}
-
-func (c *current) onDocumentFragment163(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
-
-}
-
-func (p *parser) callonDocumentFragment163() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment163(stack["start"], stack["content"], stack["end"])
-}
-
-func (c *current) onDocumentFragment267() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment267() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment267()
-}
-
-func (c *current) onDocumentFragment271() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment271() (interface{}, error) {
+func (p *parser) callonDocumentFragment174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment271()
-}
-
-func (c *current) onDocumentFragment274() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+	return p.cur.onDocumentFragment174(stack["delimiter"])
 }
 
-func (p *parser) callonDocumentFragment274() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment274()
-}
+func (c *current) onDocumentFragment193(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
-func (c *current) onDocumentFragment263(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonDocumentFragment263() (interface{}, error) {
+func (p *parser) callonDocumentFragment193() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment263(stack["language"])
+	return p.cur.onDocumentFragment193(stack["start"])
 }
 
-func (c *current) onDocumentFragment289() (interface{}, error) {
-
+func (c *current) onDocumentFragment205() (interface{}, error) {
+	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment289() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment289()
-}
-
-func (c *current) onDocumentFragment292() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment292() (interface{}, error) {
+func (p *parser) callonDocumentFragment205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment292()
+	return p.cur.onDocumentFragment205()
 }
 
-func (c *current) onDocumentFragment305() (interface{}, error) {
+func (c *current) onDocumentFragment211() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment305() (interface{}, error) {
+func (p *parser) callonDocumentFragment211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment305()
+	return p.cur.onDocumentFragment211()
 }
 
-func (c *current) onDocumentFragment309() (interface{}, error) {
+func (c *current) onDocumentFragment214() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment309() (interface{}, error) {
+func (p *parser) callonDocumentFragment214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment309()
+	return p.cur.onDocumentFragment214()
 }
 
-func (c *current) onDocumentFragment300(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment202(delimiter interface{}) (interface{}, error) {
 
-	return types.NewRawLine(content.(string))
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment300() (interface{}, error) {
+func (p *parser) callonDocumentFragment202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment300(stack["content"])
+	return p.cur.onDocumentFragment202(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment283(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment221(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment283() (interface{}, error) {
+func (p *parser) callonDocumentFragment221() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment283(stack["line"])
+	return p.cur.onDocumentFragment221(stack["end"])
 }
 
-func (c *current) onDocumentFragment320() (interface{}, error) {
+func (c *current) onDocumentFragment230() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment320() (interface{}, error) {
+func (p *parser) callonDocumentFragment230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment320()
+	return p.cur.onDocumentFragment230()
 }
 
-func (c *current) onDocumentFragment323() (interface{}, error) {
+func (c *current) onDocumentFragment234() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment323() (interface{}, error) {
+func (p *parser) callonDocumentFragment234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment323()
+	return p.cur.onDocumentFragment234()
 }
 
-func (c *current) onDocumentFragment260(delimiter, content interface{}) (interface{}, error) {
-	// Markdown code with fences is a "listing/source" block in Asciidoc
-	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
-	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
-	return b, err
+func (c *current) onDocumentFragment225(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment260() (interface{}, error) {
+func (p *parser) callonDocumentFragment225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment260(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentFragment225(stack["content"])
 }
 
-func (c *current) onDocumentFragment336() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onDocumentFragment196(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment196() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment196(stack["line"])
+}
+
+func (c *current) onDocumentFragment249() (interface{}, error) {
+	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment336() (interface{}, error) {
+func (p *parser) callonDocumentFragment249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment336()
+	return p.cur.onDocumentFragment249()
 }
 
-func (c *current) onDocumentFragment342() (interface{}, error) {
+func (c *current) onDocumentFragment255() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment342() (interface{}, error) {
+func (p *parser) callonDocumentFragment255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment342()
+	return p.cur.onDocumentFragment255()
 }
 
-func (c *current) onDocumentFragment345() (interface{}, error) {
+func (c *current) onDocumentFragment258() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment345() (interface{}, error) {
+func (p *parser) callonDocumentFragment258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment345()
+	return p.cur.onDocumentFragment258()
 }
 
-func (c *current) onDocumentFragment333(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment246(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment333() (interface{}, error) {
+func (p *parser) callonDocumentFragment246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment333(stack["delimiter"])
+	return p.cur.onDocumentFragment246(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment352(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+func (c *current) onDocumentFragment265(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment352() (bool, error) {
+func (p *parser) callonDocumentFragment265() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment352(stack["start"])
+	return p.cur.onDocumentFragment265(stack["end"])
 }
 
-func (c *current) onDocumentFragment364() (interface{}, error) {
-	// sequence of 3 "`" chars or more
-	return string(c.text), nil
+func (c *current) onDocumentFragment171(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment364() (interface{}, error) {
+func (p *parser) callonDocumentFragment171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment364()
+	return p.cur.onDocumentFragment171(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment370() (interface{}, error) {
-
+func (c *current) onDocumentFragment275() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonDocumentFragment370() (interface{}, error) {
+func (p *parser) callonDocumentFragment275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment370()
+	return p.cur.onDocumentFragment275()
 }
 
-func (c *current) onDocumentFragment373() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onDocumentFragment279() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentFragment373() (interface{}, error) {
+func (p *parser) callonDocumentFragment279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment373()
+	return p.cur.onDocumentFragment279()
 }
 
-func (c *current) onDocumentFragment361(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
-
+func (c *current) onDocumentFragment282() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment361() (interface{}, error) {
+func (p *parser) callonDocumentFragment282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment361(stack["delimiter"])
+	return p.cur.onDocumentFragment282()
 }
 
-func (c *current) onDocumentFragment380(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
+func (c *current) onDocumentFragment271(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonDocumentFragment380() (bool, error) {
+func (p *parser) callonDocumentFragment271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment380(stack["end"])
+	return p.cur.onDocumentFragment271(stack["language"])
 }
 
-func (c *current) onDocumentFragment389() (interface{}, error) {
+func (c *current) onDocumentFragment297() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment389() (interface{}, error) {
+func (p *parser) callonDocumentFragment297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment389()
+	return p.cur.onDocumentFragment297()
 }
 
-func (c *current) onDocumentFragment393() (interface{}, error) {
+func (c *current) onDocumentFragment300() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment393() (interface{}, error) {
+func (p *parser) callonDocumentFragment300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment393()
-}
-
-func (c *current) onDocumentFragment384(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
+	return p.cur.onDocumentFragment300()
 }
 
-func (p *parser) callonDocumentFragment384() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment384(stack["content"])
-}
+func (c *current) onDocumentFragment313() (interface{}, error) {
 
-func (c *current) onDocumentFragment355(line interface{}) (interface{}, error) {
-	return line, nil
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment355() (interface{}, error) {
+func (p *parser) callonDocumentFragment313() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment355(stack["line"])
+	return p.cur.onDocumentFragment313()
 }
 
-func (c *current) onDocumentFragment408() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onDocumentFragment317() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonDocumentFragment408() (interface{}, error) {
+func (p *parser) callonDocumentFragment317() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment408()
+	return p.cur.onDocumentFragment317()
 }
 
-func (c *current) onDocumentFragment414() (interface{}, error) {
+func (c *current) onDocumentFragment308(content interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment414() (interface{}, error) {
+func (p *parser) callonDocumentFragment308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment414()
+	return p.cur.onDocumentFragment308(stack["content"])
 }
 
-func (c *current) onDocumentFragment417() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onDocumentFragment291(line interface{}) (interface{}, error) {
+	return line, nil
+
 }
 
-func (p *parser) callonDocumentFragment417() (interface{}, error) {
+func (p *parser) callonDocumentFragment291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment417()
+	return p.cur.onDocumentFragment291(stack["line"])
 }
 
-func (c *current) onDocumentFragment405(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment328() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment405() (interface{}, error) {
+func (p *parser) callonDocumentFragment328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment405(stack["delimiter"])
+	return p.cur.onDocumentFragment328()
 }
 
-func (c *current) onDocumentFragment424(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
+func (c *current) onDocumentFragment331() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment424() (bool, error) {
+func (p *parser) callonDocumentFragment331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment424(stack["end"])
+	return p.cur.onDocumentFragment331()
 }
 
-func (c *current) onDocumentFragment330(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
+func (c *current) onDocumentFragment268(delimiter, content interface{}) (interface{}, error) {
+	// Markdown code with fences is a "listing/source" block in Asciidoc
+	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
+	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
+	return b, err
 
 }
 
-func (p *parser) callonDocumentFragment330() (interface{}, error) {
+func (p *parser) callonDocumentFragment268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment330(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment268(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onDocumentFragment433() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onDocumentFragment344() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment433() (interface{}, error) {
+func (p *parser) callonDocumentFragment344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment433()
+	return p.cur.onDocumentFragment344()
 }
 
-func (c *current) onDocumentFragment439() (interface{}, error) {
+func (c *current) onDocumentFragment350() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment439() (interface{}, error) {
+func (p *parser) callonDocumentFragment350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment439()
+	return p.cur.onDocumentFragment350()
 }
 
-func (c *current) onDocumentFragment442() (interface{}, error) {
+func (c *current) onDocumentFragment353() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment442() (interface{}, error) {
+func (p *parser) callonDocumentFragment353() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment442()
+	return p.cur.onDocumentFragment353()
 }
 
-func (c *current) onDocumentFragment430(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment341(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment430() (interface{}, error) {
+func (p *parser) callonDocumentFragment341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment430(stack["delimiter"])
+	return p.cur.onDocumentFragment341(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment449(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment360(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment449() (bool, error) {
+func (p *parser) callonDocumentFragment360() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment449(stack["start"])
+	return p.cur.onDocumentFragment360(stack["start"])
 }
 
-func (c *current) onDocumentFragment461() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onDocumentFragment372() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment461() (interface{}, error) {
+func (p *parser) callonDocumentFragment372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment461()
+	return p.cur.onDocumentFragment372()
 }
 
-func (c *current) onDocumentFragment467() (interface{}, error) {
+func (c *current) onDocumentFragment378() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment467() (interface{}, error) {
+func (p *parser) callonDocumentFragment378() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment467()
+	return p.cur.onDocumentFragment378()
 }
 
-func (c *current) onDocumentFragment470() (interface{}, error) {
+func (c *current) onDocumentFragment381() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment470() (interface{}, error) {
+func (p *parser) callonDocumentFragment381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment470()
+	return p.cur.onDocumentFragment381()
 }
 
-func (c *current) onDocumentFragment458(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment369(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment458() (interface{}, error) {
+func (p *parser) callonDocumentFragment369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment458(stack["delimiter"])
+	return p.cur.onDocumentFragment369(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment477(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment388(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment477() (bool, error) {
+func (p *parser) callonDocumentFragment388() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment477(stack["end"])
+	return p.cur.onDocumentFragment388(stack["end"])
 }
 
-func (c *current) onDocumentFragment486() (interface{}, error) {
+func (c *current) onDocumentFragment397() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment486() (interface{}, error) {
+func (p *parser) callonDocumentFragment397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment486()
+	return p.cur.onDocumentFragment397()
 }
 
-func (c *current) onDocumentFragment490() (interface{}, error) {
+func (c *current) onDocumentFragment401() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment490() (interface{}, error) {
+func (p *parser) callonDocumentFragment401() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment490()
+	return p.cur.onDocumentFragment401()
 }
 
-func (c *current) onDocumentFragment481(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment392(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment481() (interface{}, error) {
+func (p *parser) callonDocumentFragment392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment481(stack["content"])
+	return p.cur.onDocumentFragment392(stack["content"])
 }
 
-func (c *current) onDocumentFragment452(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment363(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment452() (interface{}, error) {
+func (p *parser) callonDocumentFragment363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment452(stack["line"])
+	return p.cur.onDocumentFragment363(stack["line"])
 }
 
-func (c *current) onDocumentFragment505() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onDocumentFragment416() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment505() (interface{}, error) {
+func (p *parser) callonDocumentFragment416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment505()
+	return p.cur.onDocumentFragment416()
 }
 
-func (c *current) onDocumentFragment511() (interface{}, error) {
+func (c *current) onDocumentFragment422() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment511() (interface{}, error) {
+func (p *parser) callonDocumentFragment422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment511()
+	return p.cur.onDocumentFragment422()
 }
 
-func (c *current) onDocumentFragment514() (interface{}, error) {
+func (c *current) onDocumentFragment425() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment514() (interface{}, error) {
+func (p *parser) callonDocumentFragment425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment514()
+	return p.cur.onDocumentFragment425()
 }
 
-func (c *current) onDocumentFragment502(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment413(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment502() (interface{}, error) {
+func (p *parser) callonDocumentFragment413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment502(stack["delimiter"])
+	return p.cur.onDocumentFragment413(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment521(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment432(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment521() (bool, error) {
+func (p *parser) callonDocumentFragment432() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment521(stack["end"])
+	return p.cur.onDocumentFragment432(stack["end"])
 }
 
-func (c *current) onDocumentFragment427(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
+func (c *current) onDocumentFragment338(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment427() (interface{}, error) {
+func (p *parser) callonDocumentFragment338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment427(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment338(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment530() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onDocumentFragment441() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment530() (interface{}, error) {
+func (p *parser) callonDocumentFragment441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment530()
+	return p.cur.onDocumentFragment441()
 }
 
-func (c *current) onDocumentFragment536() (interface{}, error) {
+func (c *current) onDocumentFragment447() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment536() (interface{}, error) {
+func (p *parser) callonDocumentFragment447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment536()
+	return p.cur.onDocumentFragment447()
 }
 
-func (c *current) onDocumentFragment539() (interface{}, error) {
+func (c *current) onDocumentFragment450() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment539() (interface{}, error) {
+func (p *parser) callonDocumentFragment450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment539()
+	return p.cur.onDocumentFragment450()
 }
 
-func (c *current) onDocumentFragment527(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment438(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment527() (interface{}, error) {
+func (p *parser) callonDocumentFragment438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment527(stack["delimiter"])
+	return p.cur.onDocumentFragment438(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment546(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment457(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment546() (bool, error) {
+func (p *parser) callonDocumentFragment457() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment546(stack["start"])
+	return p.cur.onDocumentFragment457(stack["start"])
 }
 
-func (c *current) onDocumentFragment558() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onDocumentFragment469() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment558() (interface{}, error) {
+func (p *parser) callonDocumentFragment469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment558()
+	return p.cur.onDocumentFragment469()
 }
 
-func (c *current) onDocumentFragment564() (interface{}, error) {
+func (c *current) onDocumentFragment475() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment564() (interface{}, error) {
+func (p *parser) callonDocumentFragment475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment564()
+	return p.cur.onDocumentFragment475()
 }
 
-func (c *current) onDocumentFragment567() (interface{}, error) {
+func (c *current) onDocumentFragment478() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment567() (interface{}, error) {
+func (p *parser) callonDocumentFragment478() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment567()
+	return p.cur.onDocumentFragment478()
 }
 
-func (c *current) onDocumentFragment555(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment466(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment555() (interface{}, error) {
+func (p *parser) callonDocumentFragment466() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment555(stack["delimiter"])
+	return p.cur.onDocumentFragment466(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment574(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment485(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment574() (bool, error) {
+func (p *parser) callonDocumentFragment485() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment574(stack["end"])
+	return p.cur.onDocumentFragment485(stack["end"])
 }
 
-func (c *current) onDocumentFragment583() (interface{}, error) {
+func (c *current) onDocumentFragment494() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment583() (interface{}, error) {
+func (p *parser) callonDocumentFragment494() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment583()
+	return p.cur.onDocumentFragment494()
 }
 
-func (c *current) onDocumentFragment587() (interface{}, error) {
+func (c *current) onDocumentFragment498() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment587() (interface{}, error) {
+func (p *parser) callonDocumentFragment498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment587()
+	return p.cur.onDocumentFragment498()
 }
 
-func (c *current) onDocumentFragment578(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment489(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment578() (interface{}, error) {
+func (p *parser) callonDocumentFragment489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment578(stack["content"])
+	return p.cur.onDocumentFragment489(stack["content"])
 }
 
-func (c *current) onDocumentFragment549(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment460(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment549() (interface{}, error) {
+func (p *parser) callonDocumentFragment460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment549(stack["line"])
+	return p.cur.onDocumentFragment460(stack["line"])
 }
 
-func (c *current) onDocumentFragment602() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onDocumentFragment513() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment602() (interface{}, error) {
+func (p *parser) callonDocumentFragment513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment602()
+	return p.cur.onDocumentFragment513()
 }
 
-func (c *current) onDocumentFragment608() (interface{}, error) {
+func (c *current) onDocumentFragment519() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment608() (interface{}, error) {
+func (p *parser) callonDocumentFragment519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment608()
+	return p.cur.onDocumentFragment519()
 }
 
-func (c *current) onDocumentFragment611() (interface{}, error) {
+func (c *current) onDocumentFragment522() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment611() (interface{}, error) {
+func (p *parser) callonDocumentFragment522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment611()
+	return p.cur.onDocumentFragment522()
 }
 
-func (c *current) onDocumentFragment599(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment510(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment599() (interface{}, error) {
+func (p *parser) callonDocumentFragment510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment599(stack["delimiter"])
+	return p.cur.onDocumentFragment510(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment618(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment529(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment618() (bool, error) {
+func (p *parser) callonDocumentFragment529() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment618(stack["end"])
+	return p.cur.onDocumentFragment529(stack["end"])
 }
 
-func (c *current) onDocumentFragment524(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
+func (c *current) onDocumentFragment435(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment524() (interface{}, error) {
+func (p *parser) callonDocumentFragment435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment524(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment435(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment632() (interface{}, error) {
-
+func (c *current) onDocumentFragment538() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment632() (interface{}, error) {
+func (p *parser) callonDocumentFragment538() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment632()
+	return p.cur.onDocumentFragment538()
 }
 
-func (c *current) onDocumentFragment635() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onDocumentFragment544() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentFragment635() (interface{}, error) {
+func (p *parser) callonDocumentFragment544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment635()
+	return p.cur.onDocumentFragment544()
 }
 
-func (c *current) onDocumentFragment627() (interface{}, error) {
-	return types.NewBlankLine()
-
+func (c *current) onDocumentFragment547() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment627() (interface{}, error) {
+func (p *parser) callonDocumentFragment547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment627()
+	return p.cur.onDocumentFragment547()
 }
 
-func (c *current) onDocumentFragment644() (interface{}, error) {
+func (c *current) onDocumentFragment535(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment644() (interface{}, error) {
+func (p *parser) callonDocumentFragment535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment644()
+	return p.cur.onDocumentFragment535(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment648() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onDocumentFragment554(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
 }
 
-func (p *parser) callonDocumentFragment648() (interface{}, error) {
+func (p *parser) callonDocumentFragment554() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment648()
+	return p.cur.onDocumentFragment554(stack["start"])
 }
 
-func (c *current) onDocumentFragment624(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onDocumentFragment566() (interface{}, error) {
+	// sequence of 4 "." chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment624() (interface{}, error) {
+func (p *parser) callonDocumentFragment566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment624(stack["content"])
+	return p.cur.onDocumentFragment566()
 }
 
-func (c *current) onDocumentFragment666() (interface{}, error) {
+func (c *current) onDocumentFragment572() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment666() (interface{}, error) {
+func (p *parser) callonDocumentFragment572() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment666()
+	return p.cur.onDocumentFragment572()
 }
 
-func (c *current) onDocumentFragment669() (interface{}, error) {
+func (c *current) onDocumentFragment575() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment669() (interface{}, error) {
+func (p *parser) callonDocumentFragment575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment669()
+	return p.cur.onDocumentFragment575()
 }
 
-func (c *current) onDocumentFragment661() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onDocumentFragment563(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment661() (interface{}, error) {
+func (p *parser) callonDocumentFragment563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment661()
+	return p.cur.onDocumentFragment563(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment582(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
 }
 
-func (c *current) onDocumentFragment678() (interface{}, error) {
+func (p *parser) callonDocumentFragment582() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment582(stack["end"])
+}
+
+func (c *current) onDocumentFragment591() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment678() (interface{}, error) {
+func (p *parser) callonDocumentFragment591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment678()
+	return p.cur.onDocumentFragment591()
 }
 
-func (c *current) onDocumentFragment682() (interface{}, error) {
+func (c *current) onDocumentFragment595() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment682() (interface{}, error) {
+func (p *parser) callonDocumentFragment595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment682()
+	return p.cur.onDocumentFragment595()
 }
 
-func (c *current) onDocumentFragment658(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment586(content interface{}) (interface{}, error) {
+
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment658() (interface{}, error) {
+func (p *parser) callonDocumentFragment586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment658(stack["content"])
+	return p.cur.onDocumentFragment586(stack["content"])
 }
 
-func (c *current) onDocumentFragment692() (interface{}, error) {
+func (c *current) onDocumentFragment557(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment557() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment557(stack["line"])
+}
 
+func (c *current) onDocumentFragment610() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment692() (interface{}, error) {
+func (p *parser) callonDocumentFragment610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment692()
+	return p.cur.onDocumentFragment610()
 }
 
-func (c *current) onDocumentFragment695(content interface{}) (bool, error) {
-	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
+func (c *current) onDocumentFragment616() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment695() (bool, error) {
+func (p *parser) callonDocumentFragment616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment695(stack["content"])
+	return p.cur.onDocumentFragment616()
 }
 
-func (c *current) onDocumentFragment697() (interface{}, error) {
+func (c *current) onDocumentFragment619() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment697() (interface{}, error) {
+func (p *parser) callonDocumentFragment619() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment697()
+	return p.cur.onDocumentFragment619()
 }
 
-func (c *current) onDocumentFragment689(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onDocumentFragment607(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment689() (interface{}, error) {
+func (p *parser) callonDocumentFragment607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment689(stack["content"])
+	return p.cur.onDocumentFragment607(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment621(firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
+func (c *current) onDocumentFragment626(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment621() (interface{}, error) {
+func (p *parser) callonDocumentFragment626() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment621(stack["firstLine"], stack["otherLines"])
+	return p.cur.onDocumentFragment626(stack["end"])
 }
 
-func (c *current) onDocumentFragment710() (interface{}, error) {
-	// sequence of exactly "--"
-	return string(c.text), nil
+func (c *current) onDocumentFragment532(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment710() (interface{}, error) {
+func (p *parser) callonDocumentFragment532() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment710()
+	return p.cur.onDocumentFragment532(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment713() (interface{}, error) {
+func (c *current) onDocumentFragment640() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment713() (interface{}, error) {
+func (p *parser) callonDocumentFragment640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment713()
+	return p.cur.onDocumentFragment640()
 }
 
-func (c *current) onDocumentFragment716() (interface{}, error) {
+func (c *current) onDocumentFragment643() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment716() (interface{}, error) {
+func (p *parser) callonDocumentFragment643() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment716()
+	return p.cur.onDocumentFragment643()
 }
 
-func (c *current) onDocumentFragment707(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment635() (interface{}, error) {
+	return types.NewBlankLine()
 
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+}
 
+func (p *parser) callonDocumentFragment635() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment635()
 }
 
-func (p *parser) callonDocumentFragment707() (interface{}, error) {
+func (c *current) onDocumentFragment652() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment707(stack["delimiter"])
+	return p.cur.onDocumentFragment652()
 }
 
-func (c *current) onDocumentFragment732() (interface{}, error) {
-	// sequence of exactly "--"
+func (c *current) onDocumentFragment656() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment656() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment656()
+}
+
+func (c *current) onDocumentFragment632(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment732() (interface{}, error) {
+func (p *parser) callonDocumentFragment632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment732()
+	return p.cur.onDocumentFragment632(stack["content"])
 }
 
-func (c *current) onDocumentFragment735() (interface{}, error) {
+func (c *current) onDocumentFragment674() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment735() (interface{}, error) {
+func (p *parser) callonDocumentFragment674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment735()
+	return p.cur.onDocumentFragment674()
 }
 
-func (c *current) onDocumentFragment738() (interface{}, error) {
+func (c *current) onDocumentFragment677() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment738() (interface{}, error) {
+func (p *parser) callonDocumentFragment677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment738()
+	return p.cur.onDocumentFragment677()
 }
 
-func (c *current) onDocumentFragment729(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+func (c *current) onDocumentFragment669() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment729() (interface{}, error) {
+func (p *parser) callonDocumentFragment669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment729(stack["delimiter"])
+	return p.cur.onDocumentFragment669()
 }
 
-func (c *current) onDocumentFragment753() (interface{}, error) {
+func (c *current) onDocumentFragment686() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment753() (interface{}, error) {
+func (p *parser) callonDocumentFragment686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment753()
+	return p.cur.onDocumentFragment686()
 }
 
-func (c *current) onDocumentFragment757() (interface{}, error) {
+func (c *current) onDocumentFragment690() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment757() (interface{}, error) {
+func (p *parser) callonDocumentFragment690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment757()
+	return p.cur.onDocumentFragment690()
 }
 
-func (c *current) onDocumentFragment748(content interface{}) (interface{}, error) {
-
+func (c *current) onDocumentFragment666(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment748() (interface{}, error) {
+func (p *parser) callonDocumentFragment666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment748(stack["content"])
-}
-
-func (c *current) onDocumentFragment725(line interface{}) (interface{}, error) {
-	return line, nil
-
+	return p.cur.onDocumentFragment666(stack["content"])
 }
 
-func (p *parser) callonDocumentFragment725() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment725(stack["line"])
-}
+func (c *current) onDocumentFragment700() (interface{}, error) {
 
-func (c *current) onDocumentFragment770() (interface{}, error) {
-	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment770() (interface{}, error) {
+func (p *parser) callonDocumentFragment700() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment770()
+	return p.cur.onDocumentFragment700()
 }
 
-func (c *current) onDocumentFragment773() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onDocumentFragment703(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonDocumentFragment773() (interface{}, error) {
+func (p *parser) callonDocumentFragment703() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment773()
+	return p.cur.onDocumentFragment703(stack["content"])
 }
 
-func (c *current) onDocumentFragment776() (interface{}, error) {
+func (c *current) onDocumentFragment705() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment776() (interface{}, error) {
+func (p *parser) callonDocumentFragment705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment776()
+	return p.cur.onDocumentFragment705()
 }
 
-func (c *current) onDocumentFragment767(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+func (c *current) onDocumentFragment697(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment767() (interface{}, error) {
+func (p *parser) callonDocumentFragment697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment767(stack["delimiter"])
+	return p.cur.onDocumentFragment697(stack["content"])
 }
 
-func (c *current) onDocumentFragment704(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
+func (c *current) onDocumentFragment629(firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonDocumentFragment704() (interface{}, error) {
+func (p *parser) callonDocumentFragment629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment704(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment629(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onDocumentFragment791() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onDocumentFragment718() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment791() (interface{}, error) {
+func (p *parser) callonDocumentFragment718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment791()
+	return p.cur.onDocumentFragment718()
 }
 
-func (c *current) onDocumentFragment797() (interface{}, error) {
+func (c *current) onDocumentFragment721() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment797() (interface{}, error) {
+func (p *parser) callonDocumentFragment721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment797()
+	return p.cur.onDocumentFragment721()
 }
 
-func (c *current) onDocumentFragment800() (interface{}, error) {
+func (c *current) onDocumentFragment724() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment800() (interface{}, error) {
+func (p *parser) callonDocumentFragment724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment800()
-}
-
-func (c *current) onDocumentFragment788(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
+	return p.cur.onDocumentFragment724()
 }
 
-func (p *parser) callonDocumentFragment788() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment788(stack["delimiter"])
-}
+func (c *current) onDocumentFragment715(delimiter interface{}) (interface{}, error) {
 
-func (c *current) onDocumentFragment807(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment807() (bool, error) {
+func (p *parser) callonDocumentFragment715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment807(stack["start"])
+	return p.cur.onDocumentFragment715(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment819() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onDocumentFragment740() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment819() (interface{}, error) {
+func (p *parser) callonDocumentFragment740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment819()
+	return p.cur.onDocumentFragment740()
 }
 
-func (c *current) onDocumentFragment825() (interface{}, error) {
+func (c *current) onDocumentFragment743() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment825() (interface{}, error) {
+func (p *parser) callonDocumentFragment743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment825()
+	return p.cur.onDocumentFragment743()
 }
 
-func (c *current) onDocumentFragment828() (interface{}, error) {
+func (c *current) onDocumentFragment746() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment828() (interface{}, error) {
+func (p *parser) callonDocumentFragment746() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment828()
-}
-
-func (c *current) onDocumentFragment816(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
+	return p.cur.onDocumentFragment746()
 }
 
-func (p *parser) callonDocumentFragment816() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment816(stack["delimiter"])
-}
+func (c *current) onDocumentFragment737(delimiter interface{}) (interface{}, error) {
 
-func (c *current) onDocumentFragment835(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment835() (bool, error) {
+func (p *parser) callonDocumentFragment737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment835(stack["end"])
+	return p.cur.onDocumentFragment737(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment844() (interface{}, error) {
+func (c *current) onDocumentFragment761() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment844() (interface{}, error) {
+func (p *parser) callonDocumentFragment761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment844()
+	return p.cur.onDocumentFragment761()
 }
 
-func (c *current) onDocumentFragment848() (interface{}, error) {
+func (c *current) onDocumentFragment765() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment848() (interface{}, error) {
+func (p *parser) callonDocumentFragment765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment848()
+	return p.cur.onDocumentFragment765()
 }
 
-func (c *current) onDocumentFragment839(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment756(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment839() (interface{}, error) {
+func (p *parser) callonDocumentFragment756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment839(stack["content"])
+	return p.cur.onDocumentFragment756(stack["content"])
 }
 
-func (c *current) onDocumentFragment810(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment733(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment810() (interface{}, error) {
+func (p *parser) callonDocumentFragment733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment810(stack["line"])
+	return p.cur.onDocumentFragment733(stack["line"])
 }
 
-func (c *current) onDocumentFragment863() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onDocumentFragment778() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment863() (interface{}, error) {
+func (p *parser) callonDocumentFragment778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment863()
+	return p.cur.onDocumentFragment778()
 }
 
-func (c *current) onDocumentFragment869() (interface{}, error) {
+func (c *current) onDocumentFragment781() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment869() (interface{}, error) {
+func (p *parser) callonDocumentFragment781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment869()
+	return p.cur.onDocumentFragment781()
 }
 
-func (c *current) onDocumentFragment872() (interface{}, error) {
+func (c *current) onDocumentFragment784() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment872() (interface{}, error) {
+func (p *parser) callonDocumentFragment784() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment872()
-}
-
-func (c *current) onDocumentFragment860(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
+	return p.cur.onDocumentFragment784()
 }
 
-func (p *parser) callonDocumentFragment860() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment860(stack["delimiter"])
-}
+func (c *current) onDocumentFragment775(delimiter interface{}) (interface{}, error) {
 
-func (c *current) onDocumentFragment879(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment879() (bool, error) {
+func (p *parser) callonDocumentFragment775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment879(stack["end"])
+	return p.cur.onDocumentFragment775(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment785(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
+func (c *current) onDocumentFragment712(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment785() (interface{}, error) {
+func (p *parser) callonDocumentFragment712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment785(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment712(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment888() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onDocumentFragment799() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment888() (interface{}, error) {
+func (p *parser) callonDocumentFragment799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment888()
+	return p.cur.onDocumentFragment799()
 }
 
-func (c *current) onDocumentFragment894() (interface{}, error) {
+func (c *current) onDocumentFragment805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment894() (interface{}, error) {
+func (p *parser) callonDocumentFragment805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment894()
+	return p.cur.onDocumentFragment805()
 }
 
-func (c *current) onDocumentFragment897() (interface{}, error) {
+func (c *current) onDocumentFragment808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment897() (interface{}, error) {
+func (p *parser) callonDocumentFragment808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment897()
+	return p.cur.onDocumentFragment808()
 }
 
-func (c *current) onDocumentFragment885(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment796(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment885() (interface{}, error) {
+func (p *parser) callonDocumentFragment796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment885(stack["delimiter"])
+	return p.cur.onDocumentFragment796(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment904(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment815(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment904() (bool, error) {
+func (p *parser) callonDocumentFragment815() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment904(stack["start"])
+	return p.cur.onDocumentFragment815(stack["start"])
 }
 
-func (c *current) onDocumentFragment916() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onDocumentFragment827() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment916() (interface{}, error) {
+func (p *parser) callonDocumentFragment827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment916()
+	return p.cur.onDocumentFragment827()
 }
 
-func (c *current) onDocumentFragment922() (interface{}, error) {
+func (c *current) onDocumentFragment833() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment922() (interface{}, error) {
+func (p *parser) callonDocumentFragment833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment922()
+	return p.cur.onDocumentFragment833()
 }
 
-func (c *current) onDocumentFragment925() (interface{}, error) {
+func (c *current) onDocumentFragment836() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment925() (interface{}, error) {
+func (p *parser) callonDocumentFragment836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment925()
+	return p.cur.onDocumentFragment836()
 }
 
-func (c *current) onDocumentFragment913(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment824(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment913() (interface{}, error) {
+func (p *parser) callonDocumentFragment824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment913(stack["delimiter"])
+	return p.cur.onDocumentFragment824(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment932(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment843(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment932() (bool, error) {
+func (p *parser) callonDocumentFragment843() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment932(stack["end"])
+	return p.cur.onDocumentFragment843(stack["end"])
 }
 
-func (c *current) onDocumentFragment941() (interface{}, error) {
+func (c *current) onDocumentFragment852() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment941() (interface{}, error) {
+func (p *parser) callonDocumentFragment852() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment941()
+	return p.cur.onDocumentFragment852()
 }
 
-func (c *current) onDocumentFragment945() (interface{}, error) {
+func (c *current) onDocumentFragment856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment945() (interface{}, error) {
+func (p *parser) callonDocumentFragment856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment945()
+	return p.cur.onDocumentFragment856()
 }
 
-func (c *current) onDocumentFragment936(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment847(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment936() (interface{}, error) {
+func (p *parser) callonDocumentFragment847() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment936(stack["content"])
+	return p.cur.onDocumentFragment847(stack["content"])
 }
 
-func (c *current) onDocumentFragment907(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment818(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment907() (interface{}, error) {
+func (p *parser) callonDocumentFragment818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment907(stack["line"])
+	return p.cur.onDocumentFragment818(stack["line"])
 }
 
-func (c *current) onDocumentFragment960() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onDocumentFragment871() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment960() (interface{}, error) {
+func (p *parser) callonDocumentFragment871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment960()
+	return p.cur.onDocumentFragment871()
 }
 
-func (c *current) onDocumentFragment966() (interface{}, error) {
+func (c *current) onDocumentFragment877() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment966() (interface{}, error) {
+func (p *parser) callonDocumentFragment877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment966()
+	return p.cur.onDocumentFragment877()
 }
 
-func (c *current) onDocumentFragment969() (interface{}, error) {
+func (c *current) onDocumentFragment880() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment969() (interface{}, error) {
+func (p *parser) callonDocumentFragment880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment969()
+	return p.cur.onDocumentFragment880()
 }
 
-func (c *current) onDocumentFragment957(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment868(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment957() (interface{}, error) {
+func (p *parser) callonDocumentFragment868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment957(stack["delimiter"])
+	return p.cur.onDocumentFragment868(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment976(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment887(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment976() (bool, error) {
+func (p *parser) callonDocumentFragment887() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment976(stack["end"])
+	return p.cur.onDocumentFragment887(stack["end"])
 }
 
-func (c *current) onDocumentFragment882(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+func (c *current) onDocumentFragment793(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment882() (interface{}, error) {
+func (p *parser) callonDocumentFragment793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment882(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment793(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment985() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onDocumentFragment896() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment985() (interface{}, error) {
+func (p *parser) callonDocumentFragment896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment985()
+	return p.cur.onDocumentFragment896()
 }
 
-func (c *current) onDocumentFragment991() (interface{}, error) {
+func (c *current) onDocumentFragment902() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment991() (interface{}, error) {
+func (p *parser) callonDocumentFragment902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment991()
+	return p.cur.onDocumentFragment902()
 }
 
-func (c *current) onDocumentFragment994() (interface{}, error) {
+func (c *current) onDocumentFragment905() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment994() (interface{}, error) {
+func (p *parser) callonDocumentFragment905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment994()
+	return p.cur.onDocumentFragment905()
 }
 
-func (c *current) onDocumentFragment982(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment893(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment982() (interface{}, error) {
+func (p *parser) callonDocumentFragment893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment982(stack["delimiter"])
+	return p.cur.onDocumentFragment893(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1001(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment912(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1001() (bool, error) {
+func (p *parser) callonDocumentFragment912() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1001(stack["start"])
+	return p.cur.onDocumentFragment912(stack["start"])
 }
 
-func (c *current) onDocumentFragment1013() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onDocumentFragment924() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1013() (interface{}, error) {
+func (p *parser) callonDocumentFragment924() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1013()
+	return p.cur.onDocumentFragment924()
 }
 
-func (c *current) onDocumentFragment1019() (interface{}, error) {
+func (c *current) onDocumentFragment930() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1019() (interface{}, error) {
+func (p *parser) callonDocumentFragment930() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1019()
+	return p.cur.onDocumentFragment930()
 }
 
-func (c *current) onDocumentFragment1022() (interface{}, error) {
+func (c *current) onDocumentFragment933() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1022() (interface{}, error) {
+func (p *parser) callonDocumentFragment933() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1022()
+	return p.cur.onDocumentFragment933()
 }
 
-func (c *current) onDocumentFragment1010(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment921(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1010() (interface{}, error) {
+func (p *parser) callonDocumentFragment921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1010(stack["delimiter"])
+	return p.cur.onDocumentFragment921(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1029(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment940(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1029() (bool, error) {
+func (p *parser) callonDocumentFragment940() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1029(stack["end"])
+	return p.cur.onDocumentFragment940(stack["end"])
 }
 
-func (c *current) onDocumentFragment1038() (interface{}, error) {
+func (c *current) onDocumentFragment949() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1038() (interface{}, error) {
+func (p *parser) callonDocumentFragment949() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1038()
+	return p.cur.onDocumentFragment949()
 }
 
-func (c *current) onDocumentFragment1042() (interface{}, error) {
+func (c *current) onDocumentFragment953() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1042() (interface{}, error) {
+func (p *parser) callonDocumentFragment953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1042()
+	return p.cur.onDocumentFragment953()
 }
 
-func (c *current) onDocumentFragment1033(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment944(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1033() (interface{}, error) {
+func (p *parser) callonDocumentFragment944() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1033(stack["content"])
+	return p.cur.onDocumentFragment944(stack["content"])
 }
 
-func (c *current) onDocumentFragment1004(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment915(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment1004() (interface{}, error) {
+func (p *parser) callonDocumentFragment915() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1004(stack["line"])
+	return p.cur.onDocumentFragment915(stack["line"])
 }
 
-func (c *current) onDocumentFragment1057() (interface{}, error) {
+func (c *current) onDocumentFragment968() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment968() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment968()
+}
+
+func (c *current) onDocumentFragment974() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment974() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment974()
+}
+
+func (c *current) onDocumentFragment977() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment977() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment977()
+}
+
+func (c *current) onDocumentFragment965(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment965() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment965(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment984(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment984() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment984(stack["end"])
+}
+
+func (c *current) onDocumentFragment890(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+
+}
+
+func (p *parser) callonDocumentFragment890() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment890(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onDocumentFragment993() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment993() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment993()
+}
+
+func (c *current) onDocumentFragment999() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment999() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment999()
+}
+
+func (c *current) onDocumentFragment1002() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1002() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1002()
+}
+
+func (c *current) onDocumentFragment990(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment990() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment990(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment1009(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment1009() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1009(stack["start"])
+}
+
+func (c *current) onDocumentFragment1021() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1057() (interface{}, error) {
+func (p *parser) callonDocumentFragment1021() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1057()
+	return p.cur.onDocumentFragment1021()
 }
 
-func (c *current) onDocumentFragment1063() (interface{}, error) {
+func (c *current) onDocumentFragment1027() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1063() (interface{}, error) {
+func (p *parser) callonDocumentFragment1027() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1063()
+	return p.cur.onDocumentFragment1027()
 }
 
-func (c *current) onDocumentFragment1066() (interface{}, error) {
+func (c *current) onDocumentFragment1030() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1066() (interface{}, error) {
+func (p *parser) callonDocumentFragment1030() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1066()
+	return p.cur.onDocumentFragment1030()
 }
 
-func (c *current) onDocumentFragment1054(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1018(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1054() (interface{}, error) {
+func (p *parser) callonDocumentFragment1018() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1054(stack["delimiter"])
+	return p.cur.onDocumentFragment1018(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1073(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment1037(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1073() (bool, error) {
+func (p *parser) callonDocumentFragment1037() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1073(stack["end"])
+	return p.cur.onDocumentFragment1037(stack["end"])
 }
 
-func (c *current) onDocumentFragment979(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+func (c *current) onDocumentFragment1046() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1046() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1046()
+}
+
+func (c *current) onDocumentFragment1050() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1050() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1050()
+}
+
+func (c *current) onDocumentFragment1041(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1041() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1041(stack["content"])
+}
+
+func (c *current) onDocumentFragment1012(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment1012() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1012(stack["line"])
+}
+
+func (c *current) onDocumentFragment1065() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment979() (interface{}, error) {
+func (p *parser) callonDocumentFragment1065() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment979(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment1065()
 }
 
-func (c *current) onDocumentFragment1087() (interface{}, error) {
+func (c *current) onDocumentFragment1071() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1087() (interface{}, error) {
+func (p *parser) callonDocumentFragment1071() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1087()
+	return p.cur.onDocumentFragment1071()
 }
 
-func (c *current) onDocumentFragment1090() (interface{}, error) {
+func (c *current) onDocumentFragment1074() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1090() (interface{}, error) {
+func (p *parser) callonDocumentFragment1074() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1090()
+	return p.cur.onDocumentFragment1074()
+}
+
+func (c *current) onDocumentFragment1062(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment1062() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1062(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment1081(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment1081() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1081(stack["end"])
+}
+
+func (c *current) onDocumentFragment987(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+
+}
+
+func (p *parser) callonDocumentFragment987() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment987(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onDocumentFragment1095() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1095() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1095()
 }
 
 func (c *current) onDocumentFragment1098() (interface{}, error) {
@@ -54061,723 +54632,734 @@ func (p *parser) callonDocumentFragment1098() (interface{}, error) {
 	return p.cur.onDocumentFragment1098()
 }
 
-func (c *current) onDocumentFragment1076() (interface{}, error) {
+func (c *current) onDocumentFragment1106() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1106() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1106()
+}
+
+func (c *current) onDocumentFragment1084() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonDocumentFragment1076() (interface{}, error) {
+func (p *parser) callonDocumentFragment1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1076()
+	return p.cur.onDocumentFragment1084()
 }
 
-func (c *current) onDocumentFragment1110() (interface{}, error) {
+func (c *current) onDocumentFragment1118() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1110() (interface{}, error) {
+func (p *parser) callonDocumentFragment1118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1110()
+	return p.cur.onDocumentFragment1118()
 }
 
-func (c *current) onDocumentFragment1113() (interface{}, error) {
+func (c *current) onDocumentFragment1121() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1113() (interface{}, error) {
+func (p *parser) callonDocumentFragment1121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1113()
+	return p.cur.onDocumentFragment1121()
 }
 
-func (c *current) onDocumentFragment1128() (interface{}, error) {
+func (c *current) onDocumentFragment1136() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1128() (interface{}, error) {
+func (p *parser) callonDocumentFragment1136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1128()
+	return p.cur.onDocumentFragment1136()
 }
 
-func (c *current) onDocumentFragment1131() (interface{}, error) {
+func (c *current) onDocumentFragment1139() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1131() (interface{}, error) {
+func (p *parser) callonDocumentFragment1139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1131()
+	return p.cur.onDocumentFragment1139()
 }
 
-func (c *current) onDocumentFragment1123() (interface{}, error) {
+func (c *current) onDocumentFragment1131() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1123() (interface{}, error) {
+func (p *parser) callonDocumentFragment1131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1123()
+	return p.cur.onDocumentFragment1131()
 }
 
-func (c *current) onDocumentFragment1145() (interface{}, error) {
+func (c *current) onDocumentFragment1153() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+func (p *parser) callonDocumentFragment1153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1145()
+	return p.cur.onDocumentFragment1153()
 }
 
-func (c *current) onDocumentFragment1148() (interface{}, error) {
+func (c *current) onDocumentFragment1156() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1148() (interface{}, error) {
+func (p *parser) callonDocumentFragment1156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1148()
+	return p.cur.onDocumentFragment1156()
 }
 
-func (c *current) onDocumentFragment1170() (interface{}, error) {
+func (c *current) onDocumentFragment1178() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1170() (interface{}, error) {
+func (p *parser) callonDocumentFragment1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1170()
+	return p.cur.onDocumentFragment1178()
 }
 
-func (c *current) onDocumentFragment1175() (interface{}, error) {
+func (c *current) onDocumentFragment1183() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1175() (interface{}, error) {
+func (p *parser) callonDocumentFragment1183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1175()
+	return p.cur.onDocumentFragment1183()
 }
 
-func (c *current) onDocumentFragment1173(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1181(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1173() (interface{}, error) {
+func (p *parser) callonDocumentFragment1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1173(stack["content"])
+	return p.cur.onDocumentFragment1181(stack["content"])
 }
 
-func (c *current) onDocumentFragment1166(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1174(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1166() (interface{}, error) {
+func (p *parser) callonDocumentFragment1174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1166(stack["content"])
+	return p.cur.onDocumentFragment1174(stack["content"])
 }
 
-func (c *current) onDocumentFragment1179() (interface{}, error) {
+func (c *current) onDocumentFragment1187() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1179() (interface{}, error) {
+func (p *parser) callonDocumentFragment1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1179()
+	return p.cur.onDocumentFragment1187()
 }
 
-func (c *current) onDocumentFragment1194() (interface{}, error) {
+func (c *current) onDocumentFragment1202() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1194() (interface{}, error) {
+func (p *parser) callonDocumentFragment1202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1194()
+	return p.cur.onDocumentFragment1202()
 }
 
-func (c *current) onDocumentFragment1197() (interface{}, error) {
+func (c *current) onDocumentFragment1205() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1197() (interface{}, error) {
+func (p *parser) callonDocumentFragment1205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1197()
+	return p.cur.onDocumentFragment1205()
 }
 
-func (c *current) onDocumentFragment1189() (interface{}, error) {
+func (c *current) onDocumentFragment1197() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189()
+	return p.cur.onDocumentFragment1197()
 }
 
-func (c *current) onDocumentFragment1208() (interface{}, error) {
+func (c *current) onDocumentFragment1216() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1208() (interface{}, error) {
+func (p *parser) callonDocumentFragment1216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1208()
+	return p.cur.onDocumentFragment1216()
 }
 
-func (c *current) onDocumentFragment1211() (interface{}, error) {
+func (c *current) onDocumentFragment1219() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1211() (interface{}, error) {
+func (p *parser) callonDocumentFragment1219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1211()
+	return p.cur.onDocumentFragment1219()
 }
 
-func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1170(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+func (p *parser) callonDocumentFragment1170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1162(stack["cells"])
+	return p.cur.onDocumentFragment1170(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1246() (interface{}, error) {
+func (c *current) onDocumentFragment1254() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1246() (interface{}, error) {
+func (p *parser) callonDocumentFragment1254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1246()
+	return p.cur.onDocumentFragment1254()
 }
 
-func (c *current) onDocumentFragment1249() (interface{}, error) {
+func (c *current) onDocumentFragment1257() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1249() (interface{}, error) {
+func (p *parser) callonDocumentFragment1257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1249()
+	return p.cur.onDocumentFragment1257()
 }
 
-func (c *current) onDocumentFragment1260() (interface{}, error) {
+func (c *current) onDocumentFragment1268() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1260() (interface{}, error) {
+func (p *parser) callonDocumentFragment1268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1260()
+	return p.cur.onDocumentFragment1268()
 }
 
-func (c *current) onDocumentFragment1265() (interface{}, error) {
+func (c *current) onDocumentFragment1273() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1265() (interface{}, error) {
+func (p *parser) callonDocumentFragment1273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1265()
+	return p.cur.onDocumentFragment1273()
 }
 
-func (c *current) onDocumentFragment1270() (interface{}, error) {
+func (c *current) onDocumentFragment1278() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1270() (interface{}, error) {
+func (p *parser) callonDocumentFragment1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1270()
+	return p.cur.onDocumentFragment1278()
 }
 
-func (c *current) onDocumentFragment1268(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1276(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1268() (interface{}, error) {
+func (p *parser) callonDocumentFragment1276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1268(stack["content"])
+	return p.cur.onDocumentFragment1276(stack["content"])
 }
 
-func (c *current) onDocumentFragment1239(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1247(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell([]interface{}{content}, format)
 
 }
 
-func (p *parser) callonDocumentFragment1239() (interface{}, error) {
+func (p *parser) callonDocumentFragment1247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1239(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1247(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1283() (interface{}, error) {
+func (c *current) onDocumentFragment1291() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1283() (interface{}, error) {
+func (p *parser) callonDocumentFragment1291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1283()
+	return p.cur.onDocumentFragment1291()
 }
 
-func (c *current) onDocumentFragment1286() (interface{}, error) {
+func (c *current) onDocumentFragment1294() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1286() (interface{}, error) {
+func (p *parser) callonDocumentFragment1294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1286()
+	return p.cur.onDocumentFragment1294()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1305() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1305()
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1310() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1310()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1313() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1313() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1313()
 }
 
-func (c *current) onDocumentFragment1322() (interface{}, error) {
+func (c *current) onDocumentFragment1330() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1322() (interface{}, error) {
+func (p *parser) callonDocumentFragment1330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1322()
+	return p.cur.onDocumentFragment1330()
 }
 
-func (c *current) onDocumentFragment1325() (interface{}, error) {
+func (c *current) onDocumentFragment1333() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1325() (interface{}, error) {
+func (p *parser) callonDocumentFragment1333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1325()
+	return p.cur.onDocumentFragment1333()
 }
 
-func (c *current) onDocumentFragment1317() (interface{}, error) {
+func (c *current) onDocumentFragment1325() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1317() (interface{}, error) {
+func (p *parser) callonDocumentFragment1325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1317()
+	return p.cur.onDocumentFragment1325()
 }
 
-func (c *current) onDocumentFragment1336() (interface{}, error) {
+func (c *current) onDocumentFragment1344() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1336() (interface{}, error) {
+func (p *parser) callonDocumentFragment1344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1336()
+	return p.cur.onDocumentFragment1344()
 }
 
-func (c *current) onDocumentFragment1339() (interface{}, error) {
+func (c *current) onDocumentFragment1347() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1339() (interface{}, error) {
+func (p *parser) callonDocumentFragment1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1339()
+	return p.cur.onDocumentFragment1347()
 }
 
-func (c *current) onDocumentFragment1366() (interface{}, error) {
+func (c *current) onDocumentFragment1374() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1366() (interface{}, error) {
+func (p *parser) callonDocumentFragment1374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1366()
+	return p.cur.onDocumentFragment1374()
 }
 
-func (c *current) onDocumentFragment1364(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1372(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1364() (interface{}, error) {
+func (p *parser) callonDocumentFragment1372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1364(stack["content"])
+	return p.cur.onDocumentFragment1372(stack["content"])
 }
 
-func (c *current) onDocumentFragment1371() (interface{}, error) {
+func (c *current) onDocumentFragment1379() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1371() (interface{}, error) {
+func (p *parser) callonDocumentFragment1379() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1371()
+	return p.cur.onDocumentFragment1379()
 }
 
-func (c *current) onDocumentFragment1312(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1320(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1312() (interface{}, error) {
+func (p *parser) callonDocumentFragment1320() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1312(stack["content"])
+	return p.cur.onDocumentFragment1320(stack["content"])
 }
 
-func (c *current) onDocumentFragment1276(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1284(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1276() (interface{}, error) {
+func (p *parser) callonDocumentFragment1284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1276(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1284(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1235(cells, last interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1243(cells, last interface{}) (interface{}, error) {
 	return append(cells.([]interface{}), last), nil
 }
 
-func (p *parser) callonDocumentFragment1235() (interface{}, error) {
+func (p *parser) callonDocumentFragment1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1235(stack["cells"], stack["last"])
+	return p.cur.onDocumentFragment1243(stack["cells"], stack["last"])
 }
 
-func (c *current) onDocumentFragment1159(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1167(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1159() (interface{}, error) {
+func (p *parser) callonDocumentFragment1167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1159(stack["cells"])
+	return p.cur.onDocumentFragment1167(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1383() (interface{}, error) {
+func (c *current) onDocumentFragment1391() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1383() (interface{}, error) {
+func (p *parser) callonDocumentFragment1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1383()
+	return p.cur.onDocumentFragment1391()
 }
 
-func (c *current) onDocumentFragment1386() (interface{}, error) {
+func (c *current) onDocumentFragment1394() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1386() (interface{}, error) {
+func (p *parser) callonDocumentFragment1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1394()
 }
 
-func (c *current) onDocumentFragment1378() (interface{}, error) {
+func (c *current) onDocumentFragment1386() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1378() (interface{}, error) {
+func (p *parser) callonDocumentFragment1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1378()
+	return p.cur.onDocumentFragment1386()
 }
 
-func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1146(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1138() (interface{}, error) {
+func (p *parser) callonDocumentFragment1146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1138(stack["content"])
+	return p.cur.onDocumentFragment1146(stack["content"])
 }
 
-func (c *current) onDocumentFragment1397() (interface{}, error) {
+func (c *current) onDocumentFragment1405() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1397() (interface{}, error) {
+func (p *parser) callonDocumentFragment1405() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397()
+	return p.cur.onDocumentFragment1405()
 }
 
-func (c *current) onDocumentFragment1400() (interface{}, error) {
+func (c *current) onDocumentFragment1408() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1400() (interface{}, error) {
+func (p *parser) callonDocumentFragment1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1400()
+	return p.cur.onDocumentFragment1408()
 }
 
-func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1114(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1106() (interface{}, error) {
+func (p *parser) callonDocumentFragment1114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1106(stack["lines"])
+	return p.cur.onDocumentFragment1114(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1415() (interface{}, error) {
+func (c *current) onDocumentFragment1423() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1415() (interface{}, error) {
+func (p *parser) callonDocumentFragment1423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1415()
+	return p.cur.onDocumentFragment1423()
 }
 
-func (c *current) onDocumentFragment1419() (interface{}, error) {
+func (c *current) onDocumentFragment1427() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1419() (interface{}, error) {
+func (p *parser) callonDocumentFragment1427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1419()
+	return p.cur.onDocumentFragment1427()
 }
 
-func (c *current) onDocumentFragment1409(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1417(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1409() (interface{}, error) {
+func (p *parser) callonDocumentFragment1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1409(stack["content"])
+	return p.cur.onDocumentFragment1417(stack["content"])
 }
 
-func (c *current) onDocumentFragment1428() (bool, error) {
+func (c *current) onDocumentFragment1436() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1428() (bool, error) {
+func (p *parser) callonDocumentFragment1436() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1428()
+	return p.cur.onDocumentFragment1436()
 }
 
-func (c *current) onDocumentFragment1434() (interface{}, error) {
+func (c *current) onDocumentFragment1442() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1434() (interface{}, error) {
+func (p *parser) callonDocumentFragment1442() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1434()
+	return p.cur.onDocumentFragment1442()
 }
 
-func (c *current) onDocumentFragment1437() (interface{}, error) {
+func (c *current) onDocumentFragment1445() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1437() (interface{}, error) {
+func (p *parser) callonDocumentFragment1445() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1437()
+	return p.cur.onDocumentFragment1445()
 }
 
-func (c *current) onDocumentFragment1454() (interface{}, error) {
+func (c *current) onDocumentFragment1462() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1454() (interface{}, error) {
+func (p *parser) callonDocumentFragment1462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1454()
+	return p.cur.onDocumentFragment1462()
 }
 
-func (c *current) onDocumentFragment1457() (interface{}, error) {
+func (c *current) onDocumentFragment1465() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1457() (interface{}, error) {
+func (p *parser) callonDocumentFragment1465() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1457()
+	return p.cur.onDocumentFragment1465()
 }
 
-func (c *current) onDocumentFragment1446() (interface{}, error) {
+func (c *current) onDocumentFragment1454() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1446() (interface{}, error) {
+func (p *parser) callonDocumentFragment1454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1446()
+	return p.cur.onDocumentFragment1454()
 }
 
-func (c *current) onDocumentFragment1467() (interface{}, error) {
+func (c *current) onDocumentFragment1475() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1467() (interface{}, error) {
+func (p *parser) callonDocumentFragment1475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1467()
+	return p.cur.onDocumentFragment1475()
 }
 
-func (c *current) onDocumentFragment1470() (interface{}, error) {
+func (c *current) onDocumentFragment1478() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1470() (interface{}, error) {
+func (p *parser) callonDocumentFragment1478() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1470()
+	return p.cur.onDocumentFragment1478()
 }
 
-func (c *current) onDocumentFragment1430(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1438(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1430() (interface{}, error) {
+func (p *parser) callonDocumentFragment1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1430(stack["content"])
+	return p.cur.onDocumentFragment1438(stack["content"])
 }
 
-func (c *current) onDocumentFragment1426(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1434(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1426() (interface{}, error) {
+func (p *parser) callonDocumentFragment1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1426(stack["frontmatter"])
+	return p.cur.onDocumentFragment1434(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1478(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1486(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1478() (bool, error) {
+func (p *parser) callonDocumentFragment1486() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1478(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1486(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -57593,194 +58175,225 @@ func (p *parser) callonDocumentHeader6() (interface{}, error) {
 	return p.cur.onDocumentHeader6(stack["content"])
 }
 
-func (c *current) onDocumentHeader28() (interface{}, error) {
+func (c *current) onDocumentHeader29() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader28() (interface{}, error) {
+func (p *parser) callonDocumentHeader29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader28()
+	return p.cur.onDocumentHeader29()
 }
 
-func (c *current) onDocumentHeader34() (interface{}, error) {
+func (c *current) onDocumentHeader35() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader34() (interface{}, error) {
+func (p *parser) callonDocumentHeader35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader34()
+	return p.cur.onDocumentHeader35()
 }
 
-func (c *current) onDocumentHeader37() (interface{}, error) {
+func (c *current) onDocumentHeader38() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader37() (interface{}, error) {
+func (p *parser) callonDocumentHeader38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader37()
+	return p.cur.onDocumentHeader38()
 }
 
-func (c *current) onDocumentHeader25(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader26(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader25() (interface{}, error) {
+func (p *parser) callonDocumentHeader26() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader26(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader45(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader25(stack["delimiter"])
+	return p.cur.onDocumentHeader45(stack["start"])
 }
 
-func (c *current) onDocumentHeader53() (interface{}, error) {
+func (c *current) onDocumentHeader57() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader53() (interface{}, error) {
+func (p *parser) callonDocumentHeader57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader53()
+	return p.cur.onDocumentHeader57()
 }
 
-func (c *current) onDocumentHeader59() (interface{}, error) {
+func (c *current) onDocumentHeader63() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader59() (interface{}, error) {
+func (p *parser) callonDocumentHeader63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader59()
+	return p.cur.onDocumentHeader63()
 }
 
-func (c *current) onDocumentHeader62() (interface{}, error) {
+func (c *current) onDocumentHeader66() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader62() (interface{}, error) {
+func (p *parser) callonDocumentHeader66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader62()
+	return p.cur.onDocumentHeader66()
 }
 
-func (c *current) onDocumentHeader50(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader54(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader50() (interface{}, error) {
+func (p *parser) callonDocumentHeader54() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader50(stack["delimiter"])
+	return p.cur.onDocumentHeader54(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader77() (interface{}, error) {
+func (c *current) onDocumentHeader73(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader73() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader73(stack["end"])
+}
+
+func (c *current) onDocumentHeader82() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader77() (interface{}, error) {
+func (p *parser) callonDocumentHeader82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader77()
+	return p.cur.onDocumentHeader82()
 }
 
-func (c *current) onDocumentHeader81() (interface{}, error) {
+func (c *current) onDocumentHeader86() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader81() (interface{}, error) {
+func (p *parser) callonDocumentHeader86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader81()
+	return p.cur.onDocumentHeader86()
 }
 
-func (c *current) onDocumentHeader72(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader77(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader72() (interface{}, error) {
+func (p *parser) callonDocumentHeader77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader72(stack["content"])
+	return p.cur.onDocumentHeader77(stack["content"])
 }
 
-func (c *current) onDocumentHeader46(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader48(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader46() (interface{}, error) {
+func (p *parser) callonDocumentHeader48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader46(stack["line"])
+	return p.cur.onDocumentHeader48(stack["line"])
 }
 
-func (c *current) onDocumentHeader93() (interface{}, error) {
+func (c *current) onDocumentHeader100() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader93() (interface{}, error) {
+func (p *parser) callonDocumentHeader100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader93()
+	return p.cur.onDocumentHeader100()
 }
 
-func (c *current) onDocumentHeader99() (interface{}, error) {
+func (c *current) onDocumentHeader106() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader99() (interface{}, error) {
+func (p *parser) callonDocumentHeader106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader99()
+	return p.cur.onDocumentHeader106()
 }
 
-func (c *current) onDocumentHeader102() (interface{}, error) {
+func (c *current) onDocumentHeader109() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader102() (interface{}, error) {
+func (p *parser) callonDocumentHeader109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader102()
+	return p.cur.onDocumentHeader109()
 }
 
-func (c *current) onDocumentHeader90(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader97(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader90() (interface{}, error) {
+func (p *parser) callonDocumentHeader97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader90(stack["delimiter"])
+	return p.cur.onDocumentHeader97(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader23(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader116(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader116(stack["end"])
+}
+
+func (c *current) onDocumentHeader23(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
@@ -57788,1116 +58401,1209 @@ func (c *current) onDocumentHeader23(delimiter, content interface{}) (interface{
 func (p *parser) callonDocumentHeader23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader23(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader23(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentHeader121() (interface{}, error) {
+func (c *current) onDocumentHeader129() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader121() (interface{}, error) {
+func (p *parser) callonDocumentHeader129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader121()
+	return p.cur.onDocumentHeader129()
 }
 
-func (c *current) onDocumentHeader125() (interface{}, error) {
+func (c *current) onDocumentHeader133() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader125() (interface{}, error) {
+func (p *parser) callonDocumentHeader133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader125()
+	return p.cur.onDocumentHeader133()
 }
 
-func (c *current) onDocumentHeader115(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader123(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader115() (interface{}, error) {
+func (p *parser) callonDocumentHeader123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader115(stack["content"])
+	return p.cur.onDocumentHeader123(stack["content"])
 }
 
-func (c *current) onDocumentHeader137() (interface{}, error) {
+func (c *current) onDocumentHeader146() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader137() (interface{}, error) {
+func (p *parser) callonDocumentHeader146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader137()
+	return p.cur.onDocumentHeader146()
 }
 
-func (c *current) onDocumentHeader143() (interface{}, error) {
+func (c *current) onDocumentHeader152() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader143() (interface{}, error) {
+func (p *parser) callonDocumentHeader152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader143()
+	return p.cur.onDocumentHeader152()
 }
 
-func (c *current) onDocumentHeader146() (interface{}, error) {
+func (c *current) onDocumentHeader155() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader146() (interface{}, error) {
+func (p *parser) callonDocumentHeader155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader146()
+	return p.cur.onDocumentHeader155()
 }
 
-func (c *current) onDocumentHeader134(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader143(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader134() (interface{}, error) {
+func (p *parser) callonDocumentHeader143() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader143(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader162(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader162() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader134(stack["delimiter"])
+	return p.cur.onDocumentHeader162(stack["start"])
 }
 
-func (c *current) onDocumentHeader162() (interface{}, error) {
+func (c *current) onDocumentHeader174() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader162() (interface{}, error) {
+func (p *parser) callonDocumentHeader174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader162()
+	return p.cur.onDocumentHeader174()
 }
 
-func (c *current) onDocumentHeader168() (interface{}, error) {
+func (c *current) onDocumentHeader180() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader168() (interface{}, error) {
+func (p *parser) callonDocumentHeader180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader168()
+	return p.cur.onDocumentHeader180()
 }
 
-func (c *current) onDocumentHeader171() (interface{}, error) {
+func (c *current) onDocumentHeader183() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader171() (interface{}, error) {
+func (p *parser) callonDocumentHeader183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader171()
+	return p.cur.onDocumentHeader183()
 }
 
-func (c *current) onDocumentHeader159(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader171(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader159() (interface{}, error) {
+func (p *parser) callonDocumentHeader171() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader171(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader190(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader190() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader159(stack["delimiter"])
+	return p.cur.onDocumentHeader190(stack["end"])
 }
 
-func (c *current) onDocumentHeader186() (interface{}, error) {
+func (c *current) onDocumentHeader199() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader186() (interface{}, error) {
+func (p *parser) callonDocumentHeader199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader186()
+	return p.cur.onDocumentHeader199()
 }
 
-func (c *current) onDocumentHeader190() (interface{}, error) {
+func (c *current) onDocumentHeader203() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader190() (interface{}, error) {
+func (p *parser) callonDocumentHeader203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader190()
+	return p.cur.onDocumentHeader203()
 }
 
-func (c *current) onDocumentHeader181(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader194(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader181() (interface{}, error) {
+func (p *parser) callonDocumentHeader194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader181(stack["content"])
+	return p.cur.onDocumentHeader194(stack["content"])
 }
 
-func (c *current) onDocumentHeader155(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader165(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader155() (interface{}, error) {
+func (p *parser) callonDocumentHeader165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader155(stack["line"])
+	return p.cur.onDocumentHeader165(stack["line"])
 }
 
-func (c *current) onDocumentHeader202() (interface{}, error) {
+func (c *current) onDocumentHeader217() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader202() (interface{}, error) {
+func (p *parser) callonDocumentHeader217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader202()
+	return p.cur.onDocumentHeader217()
 }
 
-func (c *current) onDocumentHeader208() (interface{}, error) {
+func (c *current) onDocumentHeader223() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader208() (interface{}, error) {
+func (p *parser) callonDocumentHeader223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader208()
+	return p.cur.onDocumentHeader223()
 }
 
-func (c *current) onDocumentHeader211() (interface{}, error) {
+func (c *current) onDocumentHeader226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader211() (interface{}, error) {
+func (p *parser) callonDocumentHeader226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader211()
+	return p.cur.onDocumentHeader226()
 }
 
-func (c *current) onDocumentHeader199(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader214(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader199() (interface{}, error) {
+func (p *parser) callonDocumentHeader214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader199(stack["delimiter"])
+	return p.cur.onDocumentHeader214(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader233(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 }
 
-func (c *current) onDocumentHeader132(delimiter, content interface{}) (interface{}, error) {
+func (p *parser) callonDocumentHeader233() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader233(stack["end"])
+}
+
+func (c *current) onDocumentHeader140(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader132() (interface{}, error) {
+func (p *parser) callonDocumentHeader140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader132(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader140(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentHeader230() (interface{}, error) {
+func (c *current) onDocumentHeader246() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader230() (interface{}, error) {
+func (p *parser) callonDocumentHeader246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader230()
+	return p.cur.onDocumentHeader246()
 }
 
-func (c *current) onDocumentHeader241() (interface{}, error) {
+func (c *current) onDocumentHeader257() (interface{}, error) {
 	// no space allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader241() (interface{}, error) {
+func (p *parser) callonDocumentHeader257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader241()
+	return p.cur.onDocumentHeader257()
 }
 
-func (c *current) onDocumentHeader245() (interface{}, error) {
+func (c *current) onDocumentHeader261() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader245() (interface{}, error) {
+func (p *parser) callonDocumentHeader261() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader245()
+	return p.cur.onDocumentHeader261()
 }
 
-func (c *current) onDocumentHeader249() (interface{}, error) {
+func (c *current) onDocumentHeader265() (interface{}, error) {
 	// no space allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader249() (interface{}, error) {
+func (p *parser) callonDocumentHeader265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader249()
+	return p.cur.onDocumentHeader265()
 }
 
-func (c *current) onDocumentHeader253() (interface{}, error) {
+func (c *current) onDocumentHeader269() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader253() (interface{}, error) {
+func (p *parser) callonDocumentHeader269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader253()
+	return p.cur.onDocumentHeader269()
 }
 
-func (c *current) onDocumentHeader257() (interface{}, error) {
+func (c *current) onDocumentHeader273() (interface{}, error) {
 	// spaces allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader257() (interface{}, error) {
+func (p *parser) callonDocumentHeader273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader257()
+	return p.cur.onDocumentHeader273()
 }
 
-func (c *current) onDocumentHeader261() (interface{}, error) {
+func (c *current) onDocumentHeader277() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader261() (interface{}, error) {
+func (p *parser) callonDocumentHeader277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader261()
+	return p.cur.onDocumentHeader277()
 }
 
-func (c *current) onDocumentHeader238(part1, part2, part3 interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader254(part1, part2, part3 interface{}) (interface{}, error) {
 	return types.NewDocumentAuthorFullName(part1.(string), part2, part3)
 
 }
 
-func (p *parser) callonDocumentHeader238() (interface{}, error) {
+func (p *parser) callonDocumentHeader254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader238(stack["part1"], stack["part2"], stack["part3"])
+	return p.cur.onDocumentHeader254(stack["part1"], stack["part2"], stack["part3"])
 }
 
-func (c *current) onDocumentHeader271() (interface{}, error) {
+func (c *current) onDocumentHeader287() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader271() (interface{}, error) {
+func (p *parser) callonDocumentHeader287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader271()
+	return p.cur.onDocumentHeader287()
 }
 
-func (c *current) onDocumentHeader265(email interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader281(email interface{}) (interface{}, error) {
 	return email, nil
 
 }
 
-func (p *parser) callonDocumentHeader265() (interface{}, error) {
+func (p *parser) callonDocumentHeader281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader265(stack["email"])
+	return p.cur.onDocumentHeader281(stack["email"])
 }
 
-func (c *current) onDocumentHeader276() (interface{}, error) {
+func (c *current) onDocumentHeader292() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader276() (interface{}, error) {
+func (p *parser) callonDocumentHeader292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader276()
+	return p.cur.onDocumentHeader292()
 }
 
-func (c *current) onDocumentHeader281() (interface{}, error) {
+func (c *current) onDocumentHeader297() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader281() (interface{}, error) {
+func (p *parser) callonDocumentHeader297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader281()
+	return p.cur.onDocumentHeader297()
 }
 
-func (c *current) onDocumentHeader283(fullName, email interface{}) (bool, error) {
+func (c *current) onDocumentHeader299(fullName, email interface{}) (bool, error) {
 	// at least 1 of [fullName, email] must be defined
 	return fullName != nil || email != nil, nil
 
 }
 
-func (p *parser) callonDocumentHeader283() (bool, error) {
+func (p *parser) callonDocumentHeader299() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader283(stack["fullName"], stack["email"])
+	return p.cur.onDocumentHeader299(stack["fullName"], stack["email"])
 }
 
-func (c *current) onDocumentHeader234(fullName, email interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader250(fullName, email interface{}) (interface{}, error) {
 	return types.NewDocumentAuthor(fullName, email)
 
 }
 
-func (p *parser) callonDocumentHeader234() (interface{}, error) {
+func (p *parser) callonDocumentHeader250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader234(stack["fullName"], stack["email"])
+	return p.cur.onDocumentHeader250(stack["fullName"], stack["email"])
 }
 
-func (c *current) onDocumentHeader285() (interface{}, error) {
+func (c *current) onDocumentHeader301() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader285() (interface{}, error) {
+func (p *parser) callonDocumentHeader301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader285()
+	return p.cur.onDocumentHeader301()
 }
 
-func (c *current) onDocumentHeader227(authors interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader243(authors interface{}) (interface{}, error) {
 	return types.NewDocumentAuthors(authors.([]interface{})...)
 }
 
-func (p *parser) callonDocumentHeader227() (interface{}, error) {
+func (p *parser) callonDocumentHeader243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader227(stack["authors"])
+	return p.cur.onDocumentHeader243(stack["authors"])
 }
 
-func (c *current) onDocumentHeader300() (interface{}, error) {
+func (c *current) onDocumentHeader316() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader300() (interface{}, error) {
+func (p *parser) callonDocumentHeader316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader300()
+	return p.cur.onDocumentHeader316()
 }
 
-func (c *current) onDocumentHeader304() (interface{}, error) {
+func (c *current) onDocumentHeader320() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader304() (interface{}, error) {
+func (p *parser) callonDocumentHeader320() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader304()
+	return p.cur.onDocumentHeader320()
 }
 
-func (c *current) onDocumentHeader294(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader310(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader294() (interface{}, error) {
+func (p *parser) callonDocumentHeader310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader294(stack["content"])
+	return p.cur.onDocumentHeader310(stack["content"])
 }
 
-func (c *current) onDocumentHeader316() (interface{}, error) {
+func (c *current) onDocumentHeader333() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader316() (interface{}, error) {
+func (p *parser) callonDocumentHeader333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader316()
+	return p.cur.onDocumentHeader333()
 }
 
-func (c *current) onDocumentHeader322() (interface{}, error) {
+func (c *current) onDocumentHeader339() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader322() (interface{}, error) {
+func (p *parser) callonDocumentHeader339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader322()
+	return p.cur.onDocumentHeader339()
 }
 
-func (c *current) onDocumentHeader325() (interface{}, error) {
+func (c *current) onDocumentHeader342() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader325() (interface{}, error) {
+func (p *parser) callonDocumentHeader342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader325()
+	return p.cur.onDocumentHeader342()
 }
 
-func (c *current) onDocumentHeader313(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader330(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader313() (interface{}, error) {
+func (p *parser) callonDocumentHeader330() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader330(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader349(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader349() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader313(stack["delimiter"])
+	return p.cur.onDocumentHeader349(stack["start"])
 }
 
-func (c *current) onDocumentHeader341() (interface{}, error) {
+func (c *current) onDocumentHeader361() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader341() (interface{}, error) {
+func (p *parser) callonDocumentHeader361() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader341()
+	return p.cur.onDocumentHeader361()
 }
 
-func (c *current) onDocumentHeader347() (interface{}, error) {
+func (c *current) onDocumentHeader367() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader347() (interface{}, error) {
+func (p *parser) callonDocumentHeader367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader347()
+	return p.cur.onDocumentHeader367()
 }
 
-func (c *current) onDocumentHeader350() (interface{}, error) {
+func (c *current) onDocumentHeader370() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader350() (interface{}, error) {
+func (p *parser) callonDocumentHeader370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader350()
+	return p.cur.onDocumentHeader370()
 }
 
-func (c *current) onDocumentHeader338(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader358(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader338() (interface{}, error) {
+func (p *parser) callonDocumentHeader358() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader358(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader377(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader377() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader338(stack["delimiter"])
+	return p.cur.onDocumentHeader377(stack["end"])
 }
 
-func (c *current) onDocumentHeader365() (interface{}, error) {
+func (c *current) onDocumentHeader386() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader365() (interface{}, error) {
+func (p *parser) callonDocumentHeader386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader365()
+	return p.cur.onDocumentHeader386()
 }
 
-func (c *current) onDocumentHeader369() (interface{}, error) {
+func (c *current) onDocumentHeader390() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader369() (interface{}, error) {
+func (p *parser) callonDocumentHeader390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader369()
+	return p.cur.onDocumentHeader390()
 }
 
-func (c *current) onDocumentHeader360(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader381(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader360() (interface{}, error) {
+func (p *parser) callonDocumentHeader381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader360(stack["content"])
+	return p.cur.onDocumentHeader381(stack["content"])
 }
 
-func (c *current) onDocumentHeader334(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader352(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader334() (interface{}, error) {
+func (p *parser) callonDocumentHeader352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader334(stack["line"])
+	return p.cur.onDocumentHeader352(stack["line"])
 }
 
-func (c *current) onDocumentHeader381() (interface{}, error) {
+func (c *current) onDocumentHeader404() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader381() (interface{}, error) {
+func (p *parser) callonDocumentHeader404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader381()
+	return p.cur.onDocumentHeader404()
 }
 
-func (c *current) onDocumentHeader387() (interface{}, error) {
+func (c *current) onDocumentHeader410() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader387() (interface{}, error) {
+func (p *parser) callonDocumentHeader410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader387()
+	return p.cur.onDocumentHeader410()
 }
 
-func (c *current) onDocumentHeader390() (interface{}, error) {
+func (c *current) onDocumentHeader413() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader390() (interface{}, error) {
+func (p *parser) callonDocumentHeader413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader390()
+	return p.cur.onDocumentHeader413()
 }
 
-func (c *current) onDocumentHeader378(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader401(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader378() (interface{}, error) {
+func (p *parser) callonDocumentHeader401() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader378(stack["delimiter"])
+	return p.cur.onDocumentHeader401(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader311(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader420(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader420() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader420(stack["end"])
+}
+
+func (c *current) onDocumentHeader327(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader311() (interface{}, error) {
+func (p *parser) callonDocumentHeader327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader311(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader327(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentHeader404() (interface{}, error) {
+func (c *current) onDocumentHeader428() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader404() (interface{}, error) {
+func (p *parser) callonDocumentHeader428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader404()
+	return p.cur.onDocumentHeader428()
 }
 
-func (c *current) onDocumentHeader414() (interface{}, error) {
+func (c *current) onDocumentHeader438() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader414() (interface{}, error) {
+func (p *parser) callonDocumentHeader438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader414()
+	return p.cur.onDocumentHeader438()
 }
 
-func (c *current) onDocumentHeader428() (interface{}, error) {
+func (c *current) onDocumentHeader452() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader428() (interface{}, error) {
+func (p *parser) callonDocumentHeader452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader428()
+	return p.cur.onDocumentHeader452()
 }
 
-func (c *current) onDocumentHeader420() (interface{}, error) {
+func (c *current) onDocumentHeader444() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader420() (interface{}, error) {
+func (p *parser) callonDocumentHeader444() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader420()
+	return p.cur.onDocumentHeader444()
 }
 
-func (c *current) onDocumentHeader436() (interface{}, error) {
+func (c *current) onDocumentHeader460() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader436() (interface{}, error) {
+func (p *parser) callonDocumentHeader460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader436()
+	return p.cur.onDocumentHeader460()
 }
 
-func (c *current) onDocumentHeader443() (interface{}, error) {
+func (c *current) onDocumentHeader467() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader443() (interface{}, error) {
+func (p *parser) callonDocumentHeader467() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader443()
+	return p.cur.onDocumentHeader467()
 }
 
-func (c *current) onDocumentHeader410(revnumber, revdate, revremark interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader434(revnumber, revdate, revremark interface{}) (interface{}, error) {
 	return types.NewDocumentRevision(revnumber, revdate, revremark)
 
 }
 
-func (p *parser) callonDocumentHeader410() (interface{}, error) {
+func (p *parser) callonDocumentHeader434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader410(stack["revnumber"], stack["revdate"], stack["revremark"])
+	return p.cur.onDocumentHeader434(stack["revnumber"], stack["revdate"], stack["revremark"])
 }
 
-func (c *current) onDocumentHeader449() (interface{}, error) {
+func (c *current) onDocumentHeader473() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader449() (interface{}, error) {
+func (p *parser) callonDocumentHeader473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader449()
+	return p.cur.onDocumentHeader473()
 }
 
-func (c *current) onDocumentHeader456() (interface{}, error) {
+func (c *current) onDocumentHeader480() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader456() (interface{}, error) {
+func (p *parser) callonDocumentHeader480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader456()
+	return p.cur.onDocumentHeader480()
 }
 
-func (c *current) onDocumentHeader446(revdate, revremark interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader470(revdate, revremark interface{}) (interface{}, error) {
 	return types.NewDocumentRevision(nil, revdate, revremark)
 
 }
 
-func (p *parser) callonDocumentHeader446() (interface{}, error) {
+func (p *parser) callonDocumentHeader470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader446(stack["revdate"], stack["revremark"])
+	return p.cur.onDocumentHeader470(stack["revdate"], stack["revremark"])
 }
 
-func (c *current) onDocumentHeader460() (interface{}, error) {
+func (c *current) onDocumentHeader484() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader460() (interface{}, error) {
+func (p *parser) callonDocumentHeader484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader460()
+	return p.cur.onDocumentHeader484()
 }
 
-func (c *current) onDocumentHeader401(revision interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader425(revision interface{}) (interface{}, error) {
 	return revision, nil
 }
 
-func (p *parser) callonDocumentHeader401() (interface{}, error) {
+func (p *parser) callonDocumentHeader425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader401(stack["revision"])
+	return p.cur.onDocumentHeader425(stack["revision"])
 }
 
-func (c *current) onDocumentHeader222(authors, revision interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader238(authors, revision interface{}) (interface{}, error) {
 	return types.NewDocumentAuthorsAndRevision(authors.(types.DocumentAuthors), revision)
 
 }
 
-func (p *parser) callonDocumentHeader222() (interface{}, error) {
+func (p *parser) callonDocumentHeader238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader222(stack["authors"], stack["revision"])
+	return p.cur.onDocumentHeader238(stack["authors"], stack["revision"])
 }
 
-func (c *current) onDocumentHeader475() (interface{}, error) {
+func (c *current) onDocumentHeader499() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader475() (interface{}, error) {
+func (p *parser) callonDocumentHeader499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader475()
+	return p.cur.onDocumentHeader499()
 }
 
-func (c *current) onDocumentHeader482() (interface{}, error) {
+func (c *current) onDocumentHeader506() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader482() (interface{}, error) {
+func (p *parser) callonDocumentHeader506() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader482()
+	return p.cur.onDocumentHeader506()
 }
 
-func (c *current) onDocumentHeader485() (interface{}, error) {
+func (c *current) onDocumentHeader509() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader485() (interface{}, error) {
+func (p *parser) callonDocumentHeader509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader485()
+	return p.cur.onDocumentHeader509()
 }
 
-func (c *current) onDocumentHeader471(name interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader495(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader471() (interface{}, error) {
+func (p *parser) callonDocumentHeader495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader471(stack["name"])
+	return p.cur.onDocumentHeader495(stack["name"])
 }
 
-func (c *current) onDocumentHeader496() (interface{}, error) {
+func (c *current) onDocumentHeader520() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader496() (interface{}, error) {
+func (p *parser) callonDocumentHeader520() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader496()
+	return p.cur.onDocumentHeader520()
 }
 
-func (c *current) onDocumentHeader503() (interface{}, error) {
+func (c *current) onDocumentHeader527() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader503() (interface{}, error) {
+func (p *parser) callonDocumentHeader527() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader503()
+	return p.cur.onDocumentHeader527()
 }
 
-func (c *current) onDocumentHeader506() (interface{}, error) {
+func (c *current) onDocumentHeader530() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader506() (interface{}, error) {
+func (p *parser) callonDocumentHeader530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader506()
+	return p.cur.onDocumentHeader530()
 }
 
-func (c *current) onDocumentHeader492(name interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader516(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader492() (interface{}, error) {
+func (p *parser) callonDocumentHeader516() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader492(stack["name"])
+	return p.cur.onDocumentHeader516(stack["name"])
 }
 
-func (c *current) onDocumentHeader519() (interface{}, error) {
+func (c *current) onDocumentHeader543() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader519() (interface{}, error) {
+func (p *parser) callonDocumentHeader543() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader519()
+	return p.cur.onDocumentHeader543()
 }
 
-func (c *current) onDocumentHeader523() (interface{}, error) {
+func (c *current) onDocumentHeader547() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader523() (interface{}, error) {
+func (p *parser) callonDocumentHeader547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader523()
+	return p.cur.onDocumentHeader547()
 }
 
-func (c *current) onDocumentHeader513(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader537(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader513() (interface{}, error) {
+func (p *parser) callonDocumentHeader537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader513(stack["content"])
+	return p.cur.onDocumentHeader537(stack["content"])
 }
 
-func (c *current) onDocumentHeader535() (interface{}, error) {
+func (c *current) onDocumentHeader560() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader535() (interface{}, error) {
+func (p *parser) callonDocumentHeader560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader535()
+	return p.cur.onDocumentHeader560()
 }
 
-func (c *current) onDocumentHeader541() (interface{}, error) {
+func (c *current) onDocumentHeader566() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader541() (interface{}, error) {
+func (p *parser) callonDocumentHeader566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader541()
+	return p.cur.onDocumentHeader566()
 }
 
-func (c *current) onDocumentHeader544() (interface{}, error) {
+func (c *current) onDocumentHeader569() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader544() (interface{}, error) {
+func (p *parser) callonDocumentHeader569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader544()
+	return p.cur.onDocumentHeader569()
 }
 
-func (c *current) onDocumentHeader532(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader557(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader532() (interface{}, error) {
+func (p *parser) callonDocumentHeader557() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader557(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader576(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader576() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader532(stack["delimiter"])
+	return p.cur.onDocumentHeader576(stack["start"])
 }
 
-func (c *current) onDocumentHeader560() (interface{}, error) {
+func (c *current) onDocumentHeader588() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader560() (interface{}, error) {
+func (p *parser) callonDocumentHeader588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader560()
+	return p.cur.onDocumentHeader588()
 }
 
-func (c *current) onDocumentHeader566() (interface{}, error) {
+func (c *current) onDocumentHeader594() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader566() (interface{}, error) {
+func (p *parser) callonDocumentHeader594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader566()
+	return p.cur.onDocumentHeader594()
 }
 
-func (c *current) onDocumentHeader569() (interface{}, error) {
+func (c *current) onDocumentHeader597() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader569() (interface{}, error) {
+func (p *parser) callonDocumentHeader597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader569()
+	return p.cur.onDocumentHeader597()
 }
 
-func (c *current) onDocumentHeader557(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader585(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader557() (interface{}, error) {
+func (p *parser) callonDocumentHeader585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader557(stack["delimiter"])
+	return p.cur.onDocumentHeader585(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader584() (interface{}, error) {
+func (c *current) onDocumentHeader604(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader604() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader604(stack["end"])
+}
+
+func (c *current) onDocumentHeader613() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader584() (interface{}, error) {
+func (p *parser) callonDocumentHeader613() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader584()
+	return p.cur.onDocumentHeader613()
 }
 
-func (c *current) onDocumentHeader588() (interface{}, error) {
+func (c *current) onDocumentHeader617() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader588() (interface{}, error) {
+func (p *parser) callonDocumentHeader617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader588()
+	return p.cur.onDocumentHeader617()
 }
 
-func (c *current) onDocumentHeader579(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader608(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader579() (interface{}, error) {
+func (p *parser) callonDocumentHeader608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader579(stack["content"])
+	return p.cur.onDocumentHeader608(stack["content"])
 }
 
-func (c *current) onDocumentHeader553(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader579(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader553() (interface{}, error) {
+func (p *parser) callonDocumentHeader579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader553(stack["line"])
+	return p.cur.onDocumentHeader579(stack["line"])
 }
 
-func (c *current) onDocumentHeader600() (interface{}, error) {
+func (c *current) onDocumentHeader631() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader600() (interface{}, error) {
+func (p *parser) callonDocumentHeader631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader600()
+	return p.cur.onDocumentHeader631()
 }
 
-func (c *current) onDocumentHeader606() (interface{}, error) {
+func (c *current) onDocumentHeader637() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader606() (interface{}, error) {
+func (p *parser) callonDocumentHeader637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader606()
+	return p.cur.onDocumentHeader637()
 }
 
-func (c *current) onDocumentHeader609() (interface{}, error) {
+func (c *current) onDocumentHeader640() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader609() (interface{}, error) {
+func (p *parser) callonDocumentHeader640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader609()
+	return p.cur.onDocumentHeader640()
 }
 
-func (c *current) onDocumentHeader597(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader628(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader597() (interface{}, error) {
+func (p *parser) callonDocumentHeader628() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader628(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader647(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonDocumentHeader647() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader597(stack["delimiter"])
+	return p.cur.onDocumentHeader647(stack["end"])
 }
 
-func (c *current) onDocumentHeader530(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader554(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader530() (interface{}, error) {
+func (p *parser) callonDocumentHeader554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader530(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader554(stack["start"], stack["content"])
 }
 
 func (c *current) onDocumentHeader1(title, authorsAndRevision, extraElements interface{}) (interface{}, error) {
@@ -64299,330 +65005,377 @@ func (p *parser) callonExtraListElement667() (interface{}, error) {
 	return p.cur.onExtraListElement667(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement690() (interface{}, error) {
+func (c *current) onExtraListElement689() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExtraListElement689() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement689()
+}
+
+func (c *current) onExtraListElement692() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExtraListElement692() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement692()
+}
+
+func (c *current) onExtraListElement695() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonExtraListElement695() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement695()
+}
+
+func (c *current) onExtraListElement686(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonExtraListElement686() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement686(stack["delimiter"])
+}
+
+func (c *current) onExtraListElement706() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement690() (interface{}, error) {
+func (p *parser) callonExtraListElement706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement690()
+	return p.cur.onExtraListElement706()
 }
 
-func (c *current) onExtraListElement694() (interface{}, error) {
+func (c *current) onExtraListElement710() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement694() (interface{}, error) {
+func (p *parser) callonExtraListElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement694()
+	return p.cur.onExtraListElement710()
 }
 
-func (c *current) onExtraListElement697() (interface{}, error) {
+func (c *current) onExtraListElement713() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement697() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement697()
+	return p.cur.onExtraListElement713()
 }
 
-func (c *current) onExtraListElement686(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement702(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686(stack["language"])
+	return p.cur.onExtraListElement702(stack["language"])
 }
 
-func (c *current) onExtraListElement707() (interface{}, error) {
+func (c *current) onExtraListElement723() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement707() (interface{}, error) {
+func (p *parser) callonExtraListElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement707()
+	return p.cur.onExtraListElement723()
 }
 
-func (c *current) onExtraListElement713() (interface{}, error) {
+func (c *current) onExtraListElement729() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement713() (interface{}, error) {
+func (p *parser) callonExtraListElement729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement713()
+	return p.cur.onExtraListElement729()
 }
 
-func (c *current) onExtraListElement716() (interface{}, error) {
+func (c *current) onExtraListElement732() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement716() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement716()
+	return p.cur.onExtraListElement732()
 }
 
-func (c *current) onExtraListElement704(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement720(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement704() (interface{}, error) {
+func (p *parser) callonExtraListElement720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement704(stack["delimiter"])
+	return p.cur.onExtraListElement720(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement726() (interface{}, error) {
+func (c *current) onExtraListElement742() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement726() (interface{}, error) {
+func (p *parser) callonExtraListElement742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement726()
+	return p.cur.onExtraListElement742()
 }
 
-func (c *current) onExtraListElement732() (interface{}, error) {
+func (c *current) onExtraListElement748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement732() (interface{}, error) {
+func (p *parser) callonExtraListElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement732()
+	return p.cur.onExtraListElement748()
 }
 
-func (c *current) onExtraListElement735() (interface{}, error) {
+func (c *current) onExtraListElement751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement735() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement735()
+	return p.cur.onExtraListElement751()
 }
 
-func (c *current) onExtraListElement723(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement739(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement723() (interface{}, error) {
+func (p *parser) callonExtraListElement739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement723(stack["delimiter"])
+	return p.cur.onExtraListElement739(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement745() (interface{}, error) {
+func (c *current) onExtraListElement761() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement745() (interface{}, error) {
+func (p *parser) callonExtraListElement761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement745()
+	return p.cur.onExtraListElement761()
 }
 
-func (c *current) onExtraListElement751() (interface{}, error) {
+func (c *current) onExtraListElement767() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement751() (interface{}, error) {
+func (p *parser) callonExtraListElement767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement751()
+	return p.cur.onExtraListElement767()
 }
 
-func (c *current) onExtraListElement754() (interface{}, error) {
+func (c *current) onExtraListElement770() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement754() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement754()
+	return p.cur.onExtraListElement770()
 }
 
-func (c *current) onExtraListElement742(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement758(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement742() (interface{}, error) {
+func (p *parser) callonExtraListElement758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement742(stack["delimiter"])
+	return p.cur.onExtraListElement758(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement764() (interface{}, error) {
+func (c *current) onExtraListElement780() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement764() (interface{}, error) {
+func (p *parser) callonExtraListElement780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement764()
+	return p.cur.onExtraListElement780()
 }
 
-func (c *current) onExtraListElement770() (interface{}, error) {
+func (c *current) onExtraListElement786() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement770() (interface{}, error) {
+func (p *parser) callonExtraListElement786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement770()
+	return p.cur.onExtraListElement786()
 }
 
-func (c *current) onExtraListElement773() (interface{}, error) {
+func (c *current) onExtraListElement789() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement773() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement773()
+	return p.cur.onExtraListElement789()
 }
 
-func (c *current) onExtraListElement761(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement777(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement761() (interface{}, error) {
+func (p *parser) callonExtraListElement777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement761(stack["delimiter"])
+	return p.cur.onExtraListElement777(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement783() (interface{}, error) {
+func (c *current) onExtraListElement799() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement783() (interface{}, error) {
+func (p *parser) callonExtraListElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement783()
+	return p.cur.onExtraListElement799()
 }
 
-func (c *current) onExtraListElement789() (interface{}, error) {
+func (c *current) onExtraListElement805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement789() (interface{}, error) {
+func (p *parser) callonExtraListElement805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement789()
+	return p.cur.onExtraListElement805()
 }
 
-func (c *current) onExtraListElement792() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement792() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement792()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement780(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement796(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement780() (interface{}, error) {
+func (p *parser) callonExtraListElement796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement780(stack["delimiter"])
+	return p.cur.onExtraListElement796(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement802() (interface{}, error) {
+func (c *current) onExtraListElement818() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement802() (interface{}, error) {
+func (p *parser) callonExtraListElement818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement802()
+	return p.cur.onExtraListElement818()
 }
 
-func (c *current) onExtraListElement808() (interface{}, error) {
+func (c *current) onExtraListElement824() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement808() (interface{}, error) {
+func (p *parser) callonExtraListElement824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement808()
+	return p.cur.onExtraListElement824()
 }
 
-func (c *current) onExtraListElement811() (interface{}, error) {
+func (c *current) onExtraListElement827() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement811() (interface{}, error) {
+func (p *parser) callonExtraListElement827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement811()
+	return p.cur.onExtraListElement827()
 }
 
-func (c *current) onExtraListElement799(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement815(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement799() (interface{}, error) {
+func (p *parser) callonExtraListElement815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement799(stack["delimiter"])
+	return p.cur.onExtraListElement815(stack["delimiter"])
 }
 
 func (c *current) onExtraListElement642(delimiter interface{}) (interface{}, error) {
@@ -64636,27 +65389,27 @@ func (p *parser) callonExtraListElement642() (interface{}, error) {
 	return p.cur.onExtraListElement642(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement819() (interface{}, error) {
+func (c *current) onExtraListElement835() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement819() (interface{}, error) {
+func (p *parser) callonExtraListElement835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement819()
+	return p.cur.onExtraListElement835()
 }
 
-func (c *current) onExtraListElement823() (interface{}, error) {
+func (c *current) onExtraListElement839() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement823() (interface{}, error) {
+func (p *parser) callonExtraListElement839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement823()
+	return p.cur.onExtraListElement839()
 }
 
 func (c *current) onExtraListElement504(content interface{}) (interface{}, error) {
@@ -65501,194 +66254,225 @@ func (p *parser) callonListContinuationElement275() (interface{}, error) {
 	return p.cur.onListContinuationElement275(stack["name"])
 }
 
-func (c *current) onListContinuationElement301() (interface{}, error) {
+func (c *current) onListContinuationElement302() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement301() (interface{}, error) {
+func (p *parser) callonListContinuationElement302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement301()
+	return p.cur.onListContinuationElement302()
 }
 
-func (c *current) onListContinuationElement307() (interface{}, error) {
+func (c *current) onListContinuationElement308() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement307() (interface{}, error) {
+func (p *parser) callonListContinuationElement308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement307()
+	return p.cur.onListContinuationElement308()
 }
 
-func (c *current) onListContinuationElement310() (interface{}, error) {
+func (c *current) onListContinuationElement311() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement310() (interface{}, error) {
+func (p *parser) callonListContinuationElement311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement310()
+	return p.cur.onListContinuationElement311()
 }
 
-func (c *current) onListContinuationElement298(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement299(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement298() (interface{}, error) {
+func (p *parser) callonListContinuationElement299() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement299(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement318(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement318() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement298(stack["delimiter"])
+	return p.cur.onListContinuationElement318(stack["start"])
 }
 
-func (c *current) onListContinuationElement326() (interface{}, error) {
+func (c *current) onListContinuationElement330() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement326() (interface{}, error) {
+func (p *parser) callonListContinuationElement330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement326()
+	return p.cur.onListContinuationElement330()
 }
 
-func (c *current) onListContinuationElement332() (interface{}, error) {
+func (c *current) onListContinuationElement336() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement332() (interface{}, error) {
+func (p *parser) callonListContinuationElement336() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement332()
+	return p.cur.onListContinuationElement336()
 }
 
-func (c *current) onListContinuationElement335() (interface{}, error) {
+func (c *current) onListContinuationElement339() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement335() (interface{}, error) {
+func (p *parser) callonListContinuationElement339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement335()
+	return p.cur.onListContinuationElement339()
 }
 
-func (c *current) onListContinuationElement323(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement327(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement323() (interface{}, error) {
+func (p *parser) callonListContinuationElement327() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement327(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement346(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonListContinuationElement346() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement323(stack["delimiter"])
+	return p.cur.onListContinuationElement346(stack["end"])
 }
 
-func (c *current) onListContinuationElement350() (interface{}, error) {
+func (c *current) onListContinuationElement355() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement350() (interface{}, error) {
+func (p *parser) callonListContinuationElement355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement350()
+	return p.cur.onListContinuationElement355()
 }
 
-func (c *current) onListContinuationElement354() (interface{}, error) {
+func (c *current) onListContinuationElement359() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement354() (interface{}, error) {
+func (p *parser) callonListContinuationElement359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement354()
+	return p.cur.onListContinuationElement359()
 }
 
-func (c *current) onListContinuationElement345(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement350(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement345() (interface{}, error) {
+func (p *parser) callonListContinuationElement350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement345(stack["content"])
+	return p.cur.onListContinuationElement350(stack["content"])
 }
 
-func (c *current) onListContinuationElement319(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement321(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement319() (interface{}, error) {
+func (p *parser) callonListContinuationElement321() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement319(stack["line"])
+	return p.cur.onListContinuationElement321(stack["line"])
 }
 
-func (c *current) onListContinuationElement366() (interface{}, error) {
+func (c *current) onListContinuationElement373() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement366() (interface{}, error) {
+func (p *parser) callonListContinuationElement373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement366()
+	return p.cur.onListContinuationElement373()
 }
 
-func (c *current) onListContinuationElement372() (interface{}, error) {
+func (c *current) onListContinuationElement379() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement372() (interface{}, error) {
+func (p *parser) callonListContinuationElement379() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement372()
+	return p.cur.onListContinuationElement379()
 }
 
-func (c *current) onListContinuationElement375() (interface{}, error) {
+func (c *current) onListContinuationElement382() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement375() (interface{}, error) {
+func (p *parser) callonListContinuationElement382() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement375()
+	return p.cur.onListContinuationElement382()
 }
 
-func (c *current) onListContinuationElement363(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement370(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement363() (interface{}, error) {
+func (p *parser) callonListContinuationElement370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement363(stack["delimiter"])
+	return p.cur.onListContinuationElement370(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement296(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement389(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+}
+
+func (p *parser) callonListContinuationElement389() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement389(stack["end"])
+}
+
+func (c *current) onListContinuationElement296(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
@@ -65696,377 +66480,377 @@ func (c *current) onListContinuationElement296(delimiter, content interface{}) (
 func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement296(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement296(stack["start"], stack["content"])
 }
 
-func (c *current) onListContinuationElement390() (interface{}, error) {
+func (c *current) onListContinuationElement398() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390()
+	return p.cur.onListContinuationElement398()
 }
 
-func (c *current) onListContinuationElement396() (interface{}, error) {
+func (c *current) onListContinuationElement404() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement396() (interface{}, error) {
+func (p *parser) callonListContinuationElement404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement396()
+	return p.cur.onListContinuationElement404()
 }
 
-func (c *current) onListContinuationElement399() (interface{}, error) {
+func (c *current) onListContinuationElement407() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement399() (interface{}, error) {
+func (p *parser) callonListContinuationElement407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement399()
+	return p.cur.onListContinuationElement407()
 }
 
-func (c *current) onListContinuationElement387(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement395(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement387() (interface{}, error) {
+func (p *parser) callonListContinuationElement395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement387(stack["delimiter"])
+	return p.cur.onListContinuationElement395(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement406(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement414(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement406() (bool, error) {
+func (p *parser) callonListContinuationElement414() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement406(stack["start"])
+	return p.cur.onListContinuationElement414(stack["start"])
 }
 
-func (c *current) onListContinuationElement418() (interface{}, error) {
+func (c *current) onListContinuationElement426() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418()
+	return p.cur.onListContinuationElement426()
 }
 
-func (c *current) onListContinuationElement424() (interface{}, error) {
+func (c *current) onListContinuationElement432() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement424() (interface{}, error) {
+func (p *parser) callonListContinuationElement432() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement424()
+	return p.cur.onListContinuationElement432()
 }
 
-func (c *current) onListContinuationElement427() (interface{}, error) {
+func (c *current) onListContinuationElement435() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement427() (interface{}, error) {
+func (p *parser) callonListContinuationElement435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement427()
+	return p.cur.onListContinuationElement435()
 }
 
-func (c *current) onListContinuationElement415(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement423(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement415() (interface{}, error) {
+func (p *parser) callonListContinuationElement423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement415(stack["delimiter"])
+	return p.cur.onListContinuationElement423(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement434(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement442(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement434() (bool, error) {
+func (p *parser) callonListContinuationElement442() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement434(stack["end"])
+	return p.cur.onListContinuationElement442(stack["end"])
 }
 
-func (c *current) onListContinuationElement443() (interface{}, error) {
+func (c *current) onListContinuationElement451() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement443() (interface{}, error) {
+func (p *parser) callonListContinuationElement451() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement443()
+	return p.cur.onListContinuationElement451()
 }
 
-func (c *current) onListContinuationElement447() (interface{}, error) {
+func (c *current) onListContinuationElement455() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement447() (interface{}, error) {
+func (p *parser) callonListContinuationElement455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement447()
+	return p.cur.onListContinuationElement455()
 }
 
-func (c *current) onListContinuationElement438(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement446(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement438() (interface{}, error) {
+func (p *parser) callonListContinuationElement446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement438(stack["content"])
+	return p.cur.onListContinuationElement446(stack["content"])
 }
 
-func (c *current) onListContinuationElement409(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement417(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement409() (interface{}, error) {
+func (p *parser) callonListContinuationElement417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["line"])
+	return p.cur.onListContinuationElement417(stack["line"])
 }
 
-func (c *current) onListContinuationElement462() (interface{}, error) {
+func (c *current) onListContinuationElement470() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462()
+	return p.cur.onListContinuationElement470()
 }
 
-func (c *current) onListContinuationElement468() (interface{}, error) {
+func (c *current) onListContinuationElement476() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement468() (interface{}, error) {
+func (p *parser) callonListContinuationElement476() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement468()
+	return p.cur.onListContinuationElement476()
 }
 
-func (c *current) onListContinuationElement471() (interface{}, error) {
+func (c *current) onListContinuationElement479() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement471() (interface{}, error) {
+func (p *parser) callonListContinuationElement479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement471()
+	return p.cur.onListContinuationElement479()
 }
 
-func (c *current) onListContinuationElement459(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement467(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement459() (interface{}, error) {
+func (p *parser) callonListContinuationElement467() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement459(stack["delimiter"])
+	return p.cur.onListContinuationElement467(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement478(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement486(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement478() (bool, error) {
+func (p *parser) callonListContinuationElement486() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement478(stack["end"])
+	return p.cur.onListContinuationElement486(stack["end"])
 }
 
-func (c *current) onListContinuationElement384(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement392(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement384() (interface{}, error) {
+func (p *parser) callonListContinuationElement392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement392(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement488() (interface{}, error) {
+func (c *current) onListContinuationElement496() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement488() (interface{}, error) {
+func (p *parser) callonListContinuationElement496() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement488()
+	return p.cur.onListContinuationElement496()
 }
 
-func (c *current) onListContinuationElement492() (interface{}, error) {
+func (c *current) onListContinuationElement500() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement492() (interface{}, error) {
+func (p *parser) callonListContinuationElement500() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement492()
+	return p.cur.onListContinuationElement500()
 }
 
-func (c *current) onListContinuationElement495() (interface{}, error) {
+func (c *current) onListContinuationElement503() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement495() (interface{}, error) {
+func (p *parser) callonListContinuationElement503() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement495()
+	return p.cur.onListContinuationElement503()
 }
 
-func (c *current) onListContinuationElement484(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement492(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement484() (interface{}, error) {
+func (p *parser) callonListContinuationElement492() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement484(stack["language"])
+	return p.cur.onListContinuationElement492(stack["language"])
 }
 
-func (c *current) onListContinuationElement510() (interface{}, error) {
+func (c *current) onListContinuationElement518() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement510() (interface{}, error) {
+func (p *parser) callonListContinuationElement518() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement510()
+	return p.cur.onListContinuationElement518()
 }
 
-func (c *current) onListContinuationElement513() (interface{}, error) {
+func (c *current) onListContinuationElement521() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement513() (interface{}, error) {
+func (p *parser) callonListContinuationElement521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement513()
+	return p.cur.onListContinuationElement521()
 }
 
-func (c *current) onListContinuationElement526() (interface{}, error) {
+func (c *current) onListContinuationElement534() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement526() (interface{}, error) {
+func (p *parser) callonListContinuationElement534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement526()
+	return p.cur.onListContinuationElement534()
 }
 
-func (c *current) onListContinuationElement530() (interface{}, error) {
+func (c *current) onListContinuationElement538() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement530() (interface{}, error) {
+func (p *parser) callonListContinuationElement538() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement530()
+	return p.cur.onListContinuationElement538()
 }
 
-func (c *current) onListContinuationElement521(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement529(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement521() (interface{}, error) {
+func (p *parser) callonListContinuationElement529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement521(stack["content"])
+	return p.cur.onListContinuationElement529(stack["content"])
 }
 
-func (c *current) onListContinuationElement504(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement512(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement504() (interface{}, error) {
+func (p *parser) callonListContinuationElement512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement504(stack["line"])
+	return p.cur.onListContinuationElement512(stack["line"])
 }
 
-func (c *current) onListContinuationElement541() (interface{}, error) {
+func (c *current) onListContinuationElement549() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement541() (interface{}, error) {
+func (p *parser) callonListContinuationElement549() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement541()
+	return p.cur.onListContinuationElement549()
 }
 
-func (c *current) onListContinuationElement544() (interface{}, error) {
+func (c *current) onListContinuationElement552() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement544() (interface{}, error) {
+func (p *parser) callonListContinuationElement552() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement544()
+	return p.cur.onListContinuationElement552()
 }
 
-func (c *current) onListContinuationElement481(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement489(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -66074,2639 +66858,2639 @@ func (c *current) onListContinuationElement481(delimiter, content interface{}) (
 
 }
 
-func (p *parser) callonListContinuationElement481() (interface{}, error) {
+func (p *parser) callonListContinuationElement489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement481(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement489(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement557() (interface{}, error) {
+func (c *current) onListContinuationElement565() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement565() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557()
+	return p.cur.onListContinuationElement565()
 }
 
-func (c *current) onListContinuationElement563() (interface{}, error) {
+func (c *current) onListContinuationElement571() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement563() (interface{}, error) {
+func (p *parser) callonListContinuationElement571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement563()
+	return p.cur.onListContinuationElement571()
 }
 
-func (c *current) onListContinuationElement566() (interface{}, error) {
+func (c *current) onListContinuationElement574() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement566() (interface{}, error) {
+func (p *parser) callonListContinuationElement574() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement566()
+	return p.cur.onListContinuationElement574()
 }
 
-func (c *current) onListContinuationElement554(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement562(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement554() (interface{}, error) {
+func (p *parser) callonListContinuationElement562() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement554(stack["delimiter"])
+	return p.cur.onListContinuationElement562(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement573(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement581(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement573() (bool, error) {
+func (p *parser) callonListContinuationElement581() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement573(stack["start"])
+	return p.cur.onListContinuationElement581(stack["start"])
 }
 
-func (c *current) onListContinuationElement585() (interface{}, error) {
+func (c *current) onListContinuationElement593() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585()
+	return p.cur.onListContinuationElement593()
 }
 
-func (c *current) onListContinuationElement591() (interface{}, error) {
+func (c *current) onListContinuationElement599() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement591() (interface{}, error) {
+func (p *parser) callonListContinuationElement599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement591()
+	return p.cur.onListContinuationElement599()
 }
 
-func (c *current) onListContinuationElement594() (interface{}, error) {
+func (c *current) onListContinuationElement602() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement594() (interface{}, error) {
+func (p *parser) callonListContinuationElement602() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement594()
+	return p.cur.onListContinuationElement602()
 }
 
-func (c *current) onListContinuationElement582(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement590(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement582() (interface{}, error) {
+func (p *parser) callonListContinuationElement590() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement582(stack["delimiter"])
+	return p.cur.onListContinuationElement590(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement601(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement609(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement601() (bool, error) {
+func (p *parser) callonListContinuationElement609() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement601(stack["end"])
+	return p.cur.onListContinuationElement609(stack["end"])
 }
 
-func (c *current) onListContinuationElement610() (interface{}, error) {
+func (c *current) onListContinuationElement618() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement610() (interface{}, error) {
+func (p *parser) callonListContinuationElement618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement610()
+	return p.cur.onListContinuationElement618()
 }
 
-func (c *current) onListContinuationElement614() (interface{}, error) {
+func (c *current) onListContinuationElement622() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement614() (interface{}, error) {
+func (p *parser) callonListContinuationElement622() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement614()
+	return p.cur.onListContinuationElement622()
 }
 
-func (c *current) onListContinuationElement605(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement613(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement605() (interface{}, error) {
+func (p *parser) callonListContinuationElement613() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement605(stack["content"])
+	return p.cur.onListContinuationElement613(stack["content"])
 }
 
-func (c *current) onListContinuationElement576(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement584(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement576() (interface{}, error) {
+func (p *parser) callonListContinuationElement584() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["line"])
+	return p.cur.onListContinuationElement584(stack["line"])
 }
 
-func (c *current) onListContinuationElement629() (interface{}, error) {
+func (c *current) onListContinuationElement637() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629()
+	return p.cur.onListContinuationElement637()
 }
 
-func (c *current) onListContinuationElement635() (interface{}, error) {
+func (c *current) onListContinuationElement643() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement635() (interface{}, error) {
+func (p *parser) callonListContinuationElement643() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement635()
+	return p.cur.onListContinuationElement643()
 }
 
-func (c *current) onListContinuationElement638() (interface{}, error) {
+func (c *current) onListContinuationElement646() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement638() (interface{}, error) {
+func (p *parser) callonListContinuationElement646() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement638()
+	return p.cur.onListContinuationElement646()
 }
 
-func (c *current) onListContinuationElement626(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement634(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement626() (interface{}, error) {
+func (p *parser) callonListContinuationElement634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement626(stack["delimiter"])
+	return p.cur.onListContinuationElement634(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement645(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement653(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement645() (bool, error) {
+func (p *parser) callonListContinuationElement653() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement645(stack["end"])
+	return p.cur.onListContinuationElement653(stack["end"])
 }
 
-func (c *current) onListContinuationElement551(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement559(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement551() (interface{}, error) {
+func (p *parser) callonListContinuationElement559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement551(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement559(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement654() (interface{}, error) {
+func (c *current) onListContinuationElement662() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654()
+	return p.cur.onListContinuationElement662()
 }
 
-func (c *current) onListContinuationElement660() (interface{}, error) {
+func (c *current) onListContinuationElement668() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement660() (interface{}, error) {
+func (p *parser) callonListContinuationElement668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement660()
+	return p.cur.onListContinuationElement668()
 }
 
-func (c *current) onListContinuationElement663() (interface{}, error) {
+func (c *current) onListContinuationElement671() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement663() (interface{}, error) {
+func (p *parser) callonListContinuationElement671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement663()
+	return p.cur.onListContinuationElement671()
 }
 
-func (c *current) onListContinuationElement651(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement659(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement651() (interface{}, error) {
+func (p *parser) callonListContinuationElement659() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement651(stack["delimiter"])
+	return p.cur.onListContinuationElement659(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement670(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement678(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement670() (bool, error) {
+func (p *parser) callonListContinuationElement678() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement670(stack["start"])
+	return p.cur.onListContinuationElement678(stack["start"])
 }
 
-func (c *current) onListContinuationElement682() (interface{}, error) {
+func (c *current) onListContinuationElement690() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682()
+	return p.cur.onListContinuationElement690()
 }
 
-func (c *current) onListContinuationElement688() (interface{}, error) {
+func (c *current) onListContinuationElement696() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement688() (interface{}, error) {
+func (p *parser) callonListContinuationElement696() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement688()
+	return p.cur.onListContinuationElement696()
 }
 
-func (c *current) onListContinuationElement691() (interface{}, error) {
+func (c *current) onListContinuationElement699() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement691() (interface{}, error) {
+func (p *parser) callonListContinuationElement699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement691()
+	return p.cur.onListContinuationElement699()
 }
 
-func (c *current) onListContinuationElement679(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement687(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement679() (interface{}, error) {
+func (p *parser) callonListContinuationElement687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement679(stack["delimiter"])
+	return p.cur.onListContinuationElement687(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement698(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement706(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement698() (bool, error) {
+func (p *parser) callonListContinuationElement706() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement698(stack["end"])
+	return p.cur.onListContinuationElement706(stack["end"])
 }
 
-func (c *current) onListContinuationElement707() (interface{}, error) {
+func (c *current) onListContinuationElement715() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement707() (interface{}, error) {
+func (p *parser) callonListContinuationElement715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement707()
+	return p.cur.onListContinuationElement715()
 }
 
-func (c *current) onListContinuationElement711() (interface{}, error) {
+func (c *current) onListContinuationElement719() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement711() (interface{}, error) {
+func (p *parser) callonListContinuationElement719() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement711()
+	return p.cur.onListContinuationElement719()
 }
 
-func (c *current) onListContinuationElement702(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement710(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement702() (interface{}, error) {
+func (p *parser) callonListContinuationElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement702(stack["content"])
+	return p.cur.onListContinuationElement710(stack["content"])
 }
 
-func (c *current) onListContinuationElement673(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement681(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement673() (interface{}, error) {
+func (p *parser) callonListContinuationElement681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["line"])
+	return p.cur.onListContinuationElement681(stack["line"])
 }
 
-func (c *current) onListContinuationElement726() (interface{}, error) {
+func (c *current) onListContinuationElement734() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726()
+	return p.cur.onListContinuationElement734()
 }
 
-func (c *current) onListContinuationElement732() (interface{}, error) {
+func (c *current) onListContinuationElement740() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement732() (interface{}, error) {
+func (p *parser) callonListContinuationElement740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement732()
+	return p.cur.onListContinuationElement740()
 }
 
-func (c *current) onListContinuationElement735() (interface{}, error) {
+func (c *current) onListContinuationElement743() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement735() (interface{}, error) {
+func (p *parser) callonListContinuationElement743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement735()
+	return p.cur.onListContinuationElement743()
 }
 
-func (c *current) onListContinuationElement723(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement731(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement723() (interface{}, error) {
+func (p *parser) callonListContinuationElement731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement723(stack["delimiter"])
+	return p.cur.onListContinuationElement731(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement742(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement750(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement742() (bool, error) {
+func (p *parser) callonListContinuationElement750() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement742(stack["end"])
+	return p.cur.onListContinuationElement750(stack["end"])
 }
 
-func (c *current) onListContinuationElement648(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement656(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement648() (interface{}, error) {
+func (p *parser) callonListContinuationElement656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement656(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement751() (interface{}, error) {
+func (c *current) onListContinuationElement759() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751()
+	return p.cur.onListContinuationElement759()
 }
 
-func (c *current) onListContinuationElement757() (interface{}, error) {
+func (c *current) onListContinuationElement765() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement757() (interface{}, error) {
+func (p *parser) callonListContinuationElement765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement757()
+	return p.cur.onListContinuationElement765()
 }
 
-func (c *current) onListContinuationElement760() (interface{}, error) {
+func (c *current) onListContinuationElement768() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement760() (interface{}, error) {
+func (p *parser) callonListContinuationElement768() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement760()
+	return p.cur.onListContinuationElement768()
 }
 
-func (c *current) onListContinuationElement748(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement756(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement748() (interface{}, error) {
+func (p *parser) callonListContinuationElement756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement748(stack["delimiter"])
+	return p.cur.onListContinuationElement756(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement767(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement775(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement767() (bool, error) {
+func (p *parser) callonListContinuationElement775() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement767(stack["start"])
+	return p.cur.onListContinuationElement775(stack["start"])
 }
 
-func (c *current) onListContinuationElement779() (interface{}, error) {
+func (c *current) onListContinuationElement787() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779()
+	return p.cur.onListContinuationElement787()
 }
 
-func (c *current) onListContinuationElement785() (interface{}, error) {
+func (c *current) onListContinuationElement793() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement785() (interface{}, error) {
+func (p *parser) callonListContinuationElement793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement785()
+	return p.cur.onListContinuationElement793()
 }
 
-func (c *current) onListContinuationElement788() (interface{}, error) {
+func (c *current) onListContinuationElement796() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement788() (interface{}, error) {
+func (p *parser) callonListContinuationElement796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement788()
+	return p.cur.onListContinuationElement796()
 }
 
-func (c *current) onListContinuationElement776(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement784(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement776() (interface{}, error) {
+func (p *parser) callonListContinuationElement784() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement776(stack["delimiter"])
+	return p.cur.onListContinuationElement784(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement795(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement803(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement795() (bool, error) {
+func (p *parser) callonListContinuationElement803() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement795(stack["end"])
+	return p.cur.onListContinuationElement803(stack["end"])
 }
 
-func (c *current) onListContinuationElement804() (interface{}, error) {
+func (c *current) onListContinuationElement812() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement804() (interface{}, error) {
+func (p *parser) callonListContinuationElement812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement804()
+	return p.cur.onListContinuationElement812()
 }
 
-func (c *current) onListContinuationElement808() (interface{}, error) {
+func (c *current) onListContinuationElement816() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement808() (interface{}, error) {
+func (p *parser) callonListContinuationElement816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement808()
+	return p.cur.onListContinuationElement816()
 }
 
-func (c *current) onListContinuationElement799(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement807(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement799() (interface{}, error) {
+func (p *parser) callonListContinuationElement807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement799(stack["content"])
+	return p.cur.onListContinuationElement807(stack["content"])
 }
 
-func (c *current) onListContinuationElement770(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement778(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement770() (interface{}, error) {
+func (p *parser) callonListContinuationElement778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["line"])
+	return p.cur.onListContinuationElement778(stack["line"])
 }
 
-func (c *current) onListContinuationElement823() (interface{}, error) {
+func (c *current) onListContinuationElement831() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823()
+	return p.cur.onListContinuationElement831()
 }
 
-func (c *current) onListContinuationElement829() (interface{}, error) {
+func (c *current) onListContinuationElement837() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement829() (interface{}, error) {
+func (p *parser) callonListContinuationElement837() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement829()
+	return p.cur.onListContinuationElement837()
 }
 
-func (c *current) onListContinuationElement832() (interface{}, error) {
+func (c *current) onListContinuationElement840() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement832() (interface{}, error) {
+func (p *parser) callonListContinuationElement840() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement832()
+	return p.cur.onListContinuationElement840()
 }
 
-func (c *current) onListContinuationElement820(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement828(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement820() (interface{}, error) {
+func (p *parser) callonListContinuationElement828() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement820(stack["delimiter"])
+	return p.cur.onListContinuationElement828(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement839(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement847(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement839() (bool, error) {
+func (p *parser) callonListContinuationElement847() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement839(stack["end"])
+	return p.cur.onListContinuationElement847(stack["end"])
 }
 
-func (c *current) onListContinuationElement745(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement753(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement745() (interface{}, error) {
+func (p *parser) callonListContinuationElement753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement753(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement853() (interface{}, error) {
+func (c *current) onListContinuationElement861() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement853() (interface{}, error) {
+func (p *parser) callonListContinuationElement861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement853()
+	return p.cur.onListContinuationElement861()
 }
 
-func (c *current) onListContinuationElement856() (interface{}, error) {
+func (c *current) onListContinuationElement864() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement856() (interface{}, error) {
+func (p *parser) callonListContinuationElement864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement856()
+	return p.cur.onListContinuationElement864()
 }
 
-func (c *current) onListContinuationElement848() (interface{}, error) {
+func (c *current) onListContinuationElement856() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement848() (interface{}, error) {
+func (p *parser) callonListContinuationElement856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement848()
+	return p.cur.onListContinuationElement856()
 }
 
-func (c *current) onListContinuationElement865() (interface{}, error) {
+func (c *current) onListContinuationElement873() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement865() (interface{}, error) {
+func (p *parser) callonListContinuationElement873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement865()
+	return p.cur.onListContinuationElement873()
 }
 
-func (c *current) onListContinuationElement869() (interface{}, error) {
+func (c *current) onListContinuationElement877() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement869() (interface{}, error) {
+func (p *parser) callonListContinuationElement877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement869()
+	return p.cur.onListContinuationElement877()
 }
 
-func (c *current) onListContinuationElement845(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement853(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement845() (interface{}, error) {
+func (p *parser) callonListContinuationElement853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement845(stack["content"])
+	return p.cur.onListContinuationElement853(stack["content"])
 }
 
-func (c *current) onListContinuationElement887() (interface{}, error) {
+func (c *current) onListContinuationElement895() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement887() (interface{}, error) {
+func (p *parser) callonListContinuationElement895() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement887()
+	return p.cur.onListContinuationElement895()
 }
 
-func (c *current) onListContinuationElement890() (interface{}, error) {
+func (c *current) onListContinuationElement898() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement890() (interface{}, error) {
+func (p *parser) callonListContinuationElement898() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement890()
+	return p.cur.onListContinuationElement898()
 }
 
-func (c *current) onListContinuationElement882() (interface{}, error) {
+func (c *current) onListContinuationElement890() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement882() (interface{}, error) {
+func (p *parser) callonListContinuationElement890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement882()
+	return p.cur.onListContinuationElement890()
 }
 
-func (c *current) onListContinuationElement899() (interface{}, error) {
+func (c *current) onListContinuationElement907() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement899() (interface{}, error) {
+func (p *parser) callonListContinuationElement907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement899()
+	return p.cur.onListContinuationElement907()
 }
 
-func (c *current) onListContinuationElement903() (interface{}, error) {
+func (c *current) onListContinuationElement911() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement903() (interface{}, error) {
+func (p *parser) callonListContinuationElement911() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement903()
+	return p.cur.onListContinuationElement911()
 }
 
-func (c *current) onListContinuationElement879(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement887(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement879() (interface{}, error) {
+func (p *parser) callonListContinuationElement887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement879(stack["content"])
+	return p.cur.onListContinuationElement887(stack["content"])
 }
 
-func (c *current) onListContinuationElement913() (interface{}, error) {
+func (c *current) onListContinuationElement921() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement913() (interface{}, error) {
+func (p *parser) callonListContinuationElement921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement913()
+	return p.cur.onListContinuationElement921()
 }
 
-func (c *current) onListContinuationElement916(content interface{}) (bool, error) {
+func (c *current) onListContinuationElement924(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonListContinuationElement916() (bool, error) {
+func (p *parser) callonListContinuationElement924() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement916(stack["content"])
+	return p.cur.onListContinuationElement924(stack["content"])
 }
 
-func (c *current) onListContinuationElement918() (interface{}, error) {
+func (c *current) onListContinuationElement926() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement918() (interface{}, error) {
+func (p *parser) callonListContinuationElement926() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement918()
+	return p.cur.onListContinuationElement926()
 }
 
-func (c *current) onListContinuationElement910(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement918(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement910() (interface{}, error) {
+func (p *parser) callonListContinuationElement918() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910(stack["content"])
+	return p.cur.onListContinuationElement918(stack["content"])
 }
 
-func (c *current) onListContinuationElement842(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement850(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonListContinuationElement842() (interface{}, error) {
+func (p *parser) callonListContinuationElement850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842(stack["firstLine"], stack["otherLines"])
+	return p.cur.onListContinuationElement850(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
+func (c *current) onListContinuationElement939() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement939() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement939()
 }
 
-func (c *current) onListContinuationElement934() (interface{}, error) {
+func (c *current) onListContinuationElement942() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement934() (interface{}, error) {
+func (p *parser) callonListContinuationElement942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement934()
+	return p.cur.onListContinuationElement942()
 }
 
-func (c *current) onListContinuationElement937() (interface{}, error) {
+func (c *current) onListContinuationElement945() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement937() (interface{}, error) {
+func (p *parser) callonListContinuationElement945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement937()
+	return p.cur.onListContinuationElement945()
 }
 
-func (c *current) onListContinuationElement928(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement936(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement936() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928(stack["delimiter"])
+	return p.cur.onListContinuationElement936(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement953() (interface{}, error) {
+func (c *current) onListContinuationElement961() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement961() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953()
+	return p.cur.onListContinuationElement961()
 }
 
-func (c *current) onListContinuationElement956() (interface{}, error) {
+func (c *current) onListContinuationElement964() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement956() (interface{}, error) {
+func (p *parser) callonListContinuationElement964() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement956()
+	return p.cur.onListContinuationElement964()
 }
 
-func (c *current) onListContinuationElement959() (interface{}, error) {
+func (c *current) onListContinuationElement967() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement959() (interface{}, error) {
+func (p *parser) callonListContinuationElement967() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement959()
+	return p.cur.onListContinuationElement967()
 }
 
-func (c *current) onListContinuationElement950(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement958(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
+func (p *parser) callonListContinuationElement958() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement950(stack["delimiter"])
+	return p.cur.onListContinuationElement958(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement974() (interface{}, error) {
+func (c *current) onListContinuationElement982() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement974() (interface{}, error) {
+func (p *parser) callonListContinuationElement982() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement974()
+	return p.cur.onListContinuationElement982()
 }
 
-func (c *current) onListContinuationElement978() (interface{}, error) {
+func (c *current) onListContinuationElement986() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement978() (interface{}, error) {
+func (p *parser) callonListContinuationElement986() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement978()
+	return p.cur.onListContinuationElement986()
 }
 
-func (c *current) onListContinuationElement969(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement977(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement969() (interface{}, error) {
+func (p *parser) callonListContinuationElement977() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement969(stack["content"])
+	return p.cur.onListContinuationElement977(stack["content"])
 }
 
-func (c *current) onListContinuationElement946(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement954(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement946() (interface{}, error) {
+func (p *parser) callonListContinuationElement954() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement946(stack["line"])
+	return p.cur.onListContinuationElement954(stack["line"])
 }
 
-func (c *current) onListContinuationElement991() (interface{}, error) {
+func (c *current) onListContinuationElement999() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement999() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991()
+	return p.cur.onListContinuationElement999()
 }
 
-func (c *current) onListContinuationElement994() (interface{}, error) {
+func (c *current) onListContinuationElement1002() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement994() (interface{}, error) {
+func (p *parser) callonListContinuationElement1002() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement994()
+	return p.cur.onListContinuationElement1002()
 }
 
-func (c *current) onListContinuationElement997() (interface{}, error) {
+func (c *current) onListContinuationElement1005() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement997() (interface{}, error) {
+func (p *parser) callonListContinuationElement1005() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement997()
+	return p.cur.onListContinuationElement1005()
 }
 
-func (c *current) onListContinuationElement988(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement996(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
+func (p *parser) callonListContinuationElement996() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement988(stack["delimiter"])
+	return p.cur.onListContinuationElement996(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement925(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement933(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement933() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement933(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1012() (interface{}, error) {
+func (c *current) onListContinuationElement1020() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1020() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012()
+	return p.cur.onListContinuationElement1020()
 }
 
-func (c *current) onListContinuationElement1018() (interface{}, error) {
+func (c *current) onListContinuationElement1026() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1018() (interface{}, error) {
+func (p *parser) callonListContinuationElement1026() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1018()
+	return p.cur.onListContinuationElement1026()
 }
 
-func (c *current) onListContinuationElement1021() (interface{}, error) {
+func (c *current) onListContinuationElement1029() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1021() (interface{}, error) {
+func (p *parser) callonListContinuationElement1029() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1021()
+	return p.cur.onListContinuationElement1029()
 }
 
-func (c *current) onListContinuationElement1009(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1017(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1009() (interface{}, error) {
+func (p *parser) callonListContinuationElement1017() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1009(stack["delimiter"])
+	return p.cur.onListContinuationElement1017(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1028(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1036(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1028() (bool, error) {
+func (p *parser) callonListContinuationElement1036() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1028(stack["start"])
+	return p.cur.onListContinuationElement1036(stack["start"])
 }
 
-func (c *current) onListContinuationElement1040() (interface{}, error) {
+func (c *current) onListContinuationElement1048() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1048() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040()
+	return p.cur.onListContinuationElement1048()
 }
 
-func (c *current) onListContinuationElement1046() (interface{}, error) {
+func (c *current) onListContinuationElement1054() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1046() (interface{}, error) {
+func (p *parser) callonListContinuationElement1054() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1046()
+	return p.cur.onListContinuationElement1054()
 }
 
-func (c *current) onListContinuationElement1049() (interface{}, error) {
+func (c *current) onListContinuationElement1057() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1049() (interface{}, error) {
+func (p *parser) callonListContinuationElement1057() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1049()
+	return p.cur.onListContinuationElement1057()
 }
 
-func (c *current) onListContinuationElement1037(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1045(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1037() (interface{}, error) {
+func (p *parser) callonListContinuationElement1045() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1037(stack["delimiter"])
+	return p.cur.onListContinuationElement1045(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1056(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1064(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1056() (bool, error) {
+func (p *parser) callonListContinuationElement1064() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1056(stack["end"])
+	return p.cur.onListContinuationElement1064(stack["end"])
 }
 
-func (c *current) onListContinuationElement1065() (interface{}, error) {
+func (c *current) onListContinuationElement1073() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1065() (interface{}, error) {
+func (p *parser) callonListContinuationElement1073() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1065()
+	return p.cur.onListContinuationElement1073()
 }
 
-func (c *current) onListContinuationElement1069() (interface{}, error) {
+func (c *current) onListContinuationElement1077() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1069() (interface{}, error) {
+func (p *parser) callonListContinuationElement1077() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1069()
+	return p.cur.onListContinuationElement1077()
 }
 
-func (c *current) onListContinuationElement1060(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1068(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1060() (interface{}, error) {
+func (p *parser) callonListContinuationElement1068() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1060(stack["content"])
+	return p.cur.onListContinuationElement1068(stack["content"])
 }
 
-func (c *current) onListContinuationElement1031(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1039(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1031() (interface{}, error) {
+func (p *parser) callonListContinuationElement1039() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["line"])
+	return p.cur.onListContinuationElement1039(stack["line"])
 }
 
-func (c *current) onListContinuationElement1084() (interface{}, error) {
+func (c *current) onListContinuationElement1092() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1092() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084()
+	return p.cur.onListContinuationElement1092()
 }
 
-func (c *current) onListContinuationElement1090() (interface{}, error) {
+func (c *current) onListContinuationElement1098() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1090() (interface{}, error) {
+func (p *parser) callonListContinuationElement1098() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1090()
+	return p.cur.onListContinuationElement1098()
 }
 
-func (c *current) onListContinuationElement1093() (interface{}, error) {
+func (c *current) onListContinuationElement1101() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1093() (interface{}, error) {
+func (p *parser) callonListContinuationElement1101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1093()
+	return p.cur.onListContinuationElement1101()
 }
 
-func (c *current) onListContinuationElement1081(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1089(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1081() (interface{}, error) {
+func (p *parser) callonListContinuationElement1089() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1081(stack["delimiter"])
+	return p.cur.onListContinuationElement1089(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1100(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1108(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1100() (bool, error) {
+func (p *parser) callonListContinuationElement1108() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1100(stack["end"])
+	return p.cur.onListContinuationElement1108(stack["end"])
 }
 
-func (c *current) onListContinuationElement1006(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1014(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1006() (interface{}, error) {
+func (p *parser) callonListContinuationElement1014() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1006(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1014(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1117() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1117()
 }
 
-func (c *current) onListContinuationElement1115() (interface{}, error) {
+func (c *current) onListContinuationElement1123() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1115() (interface{}, error) {
+func (p *parser) callonListContinuationElement1123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1115()
+	return p.cur.onListContinuationElement1123()
 }
 
-func (c *current) onListContinuationElement1118() (interface{}, error) {
+func (c *current) onListContinuationElement1126() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1118() (interface{}, error) {
+func (p *parser) callonListContinuationElement1126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1118()
+	return p.cur.onListContinuationElement1126()
 }
 
-func (c *current) onListContinuationElement1106(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1114(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1106() (interface{}, error) {
+func (p *parser) callonListContinuationElement1114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1106(stack["delimiter"])
+	return p.cur.onListContinuationElement1114(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1125(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1133(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1125() (bool, error) {
+func (p *parser) callonListContinuationElement1133() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1125(stack["start"])
+	return p.cur.onListContinuationElement1133(stack["start"])
 }
 
-func (c *current) onListContinuationElement1137() (interface{}, error) {
+func (c *current) onListContinuationElement1145() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137()
+	return p.cur.onListContinuationElement1145()
 }
 
-func (c *current) onListContinuationElement1143() (interface{}, error) {
+func (c *current) onListContinuationElement1151() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1143() (interface{}, error) {
+func (p *parser) callonListContinuationElement1151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1143()
+	return p.cur.onListContinuationElement1151()
 }
 
-func (c *current) onListContinuationElement1146() (interface{}, error) {
+func (c *current) onListContinuationElement1154() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1146() (interface{}, error) {
+func (p *parser) callonListContinuationElement1154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1146()
+	return p.cur.onListContinuationElement1154()
 }
 
-func (c *current) onListContinuationElement1134(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1142(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1134() (interface{}, error) {
+func (p *parser) callonListContinuationElement1142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1134(stack["delimiter"])
+	return p.cur.onListContinuationElement1142(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1153(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1161(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1153() (bool, error) {
+func (p *parser) callonListContinuationElement1161() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1153(stack["end"])
+	return p.cur.onListContinuationElement1161(stack["end"])
 }
 
-func (c *current) onListContinuationElement1162() (interface{}, error) {
+func (c *current) onListContinuationElement1170() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1162() (interface{}, error) {
+func (p *parser) callonListContinuationElement1170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1162()
+	return p.cur.onListContinuationElement1170()
 }
 
-func (c *current) onListContinuationElement1166() (interface{}, error) {
+func (c *current) onListContinuationElement1174() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1166() (interface{}, error) {
+func (p *parser) callonListContinuationElement1174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1166()
+	return p.cur.onListContinuationElement1174()
 }
 
-func (c *current) onListContinuationElement1157(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1165(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1157() (interface{}, error) {
+func (p *parser) callonListContinuationElement1165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1157(stack["content"])
+	return p.cur.onListContinuationElement1165(stack["content"])
 }
 
-func (c *current) onListContinuationElement1128(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1136(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["line"])
+	return p.cur.onListContinuationElement1136(stack["line"])
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1189() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1189()
 }
 
-func (c *current) onListContinuationElement1187() (interface{}, error) {
+func (c *current) onListContinuationElement1195() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1187() (interface{}, error) {
+func (p *parser) callonListContinuationElement1195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1187()
+	return p.cur.onListContinuationElement1195()
 }
 
-func (c *current) onListContinuationElement1190() (interface{}, error) {
+func (c *current) onListContinuationElement1198() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1190() (interface{}, error) {
+func (p *parser) callonListContinuationElement1198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1190()
+	return p.cur.onListContinuationElement1198()
 }
 
-func (c *current) onListContinuationElement1178(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1186(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1178() (interface{}, error) {
+func (p *parser) callonListContinuationElement1186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1178(stack["delimiter"])
+	return p.cur.onListContinuationElement1186(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1197(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1205(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1197() (bool, error) {
+func (p *parser) callonListContinuationElement1205() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["end"])
+	return p.cur.onListContinuationElement1205(stack["end"])
 }
 
-func (c *current) onListContinuationElement1103(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1111(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1111(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1214() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1214()
 }
 
-func (c *current) onListContinuationElement1212() (interface{}, error) {
+func (c *current) onListContinuationElement1220() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1212() (interface{}, error) {
+func (p *parser) callonListContinuationElement1220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1212()
+	return p.cur.onListContinuationElement1220()
 }
 
-func (c *current) onListContinuationElement1215() (interface{}, error) {
+func (c *current) onListContinuationElement1223() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1215() (interface{}, error) {
+func (p *parser) callonListContinuationElement1223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1215()
+	return p.cur.onListContinuationElement1223()
 }
 
-func (c *current) onListContinuationElement1203(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1211(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1203() (interface{}, error) {
+func (p *parser) callonListContinuationElement1211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1203(stack["delimiter"])
+	return p.cur.onListContinuationElement1211(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1222(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1230(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1222() (bool, error) {
+func (p *parser) callonListContinuationElement1230() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1222(stack["start"])
+	return p.cur.onListContinuationElement1230(stack["start"])
 }
 
-func (c *current) onListContinuationElement1234() (interface{}, error) {
+func (c *current) onListContinuationElement1242() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234()
+	return p.cur.onListContinuationElement1242()
 }
 
-func (c *current) onListContinuationElement1240() (interface{}, error) {
+func (c *current) onListContinuationElement1248() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1240() (interface{}, error) {
+func (p *parser) callonListContinuationElement1248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1240()
+	return p.cur.onListContinuationElement1248()
 }
 
-func (c *current) onListContinuationElement1243() (interface{}, error) {
+func (c *current) onListContinuationElement1251() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1243() (interface{}, error) {
+func (p *parser) callonListContinuationElement1251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1243()
+	return p.cur.onListContinuationElement1251()
 }
 
-func (c *current) onListContinuationElement1231(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1239(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1231() (interface{}, error) {
+func (p *parser) callonListContinuationElement1239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1231(stack["delimiter"])
+	return p.cur.onListContinuationElement1239(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1250(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1258(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1250() (bool, error) {
+func (p *parser) callonListContinuationElement1258() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1250(stack["end"])
+	return p.cur.onListContinuationElement1258(stack["end"])
 }
 
-func (c *current) onListContinuationElement1259() (interface{}, error) {
+func (c *current) onListContinuationElement1267() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1259() (interface{}, error) {
+func (p *parser) callonListContinuationElement1267() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1259()
+	return p.cur.onListContinuationElement1267()
 }
 
-func (c *current) onListContinuationElement1263() (interface{}, error) {
+func (c *current) onListContinuationElement1271() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1263() (interface{}, error) {
+func (p *parser) callonListContinuationElement1271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1263()
+	return p.cur.onListContinuationElement1271()
 }
 
-func (c *current) onListContinuationElement1254(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1262(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1254() (interface{}, error) {
+func (p *parser) callonListContinuationElement1262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1254(stack["content"])
+	return p.cur.onListContinuationElement1262(stack["content"])
 }
 
-func (c *current) onListContinuationElement1225(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1233(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["line"])
+	return p.cur.onListContinuationElement1233(stack["line"])
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
+func (c *current) onListContinuationElement1286() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1286()
 }
 
-func (c *current) onListContinuationElement1284() (interface{}, error) {
+func (c *current) onListContinuationElement1292() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1284() (interface{}, error) {
+func (p *parser) callonListContinuationElement1292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1284()
+	return p.cur.onListContinuationElement1292()
 }
 
-func (c *current) onListContinuationElement1287() (interface{}, error) {
+func (c *current) onListContinuationElement1295() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1287() (interface{}, error) {
+func (p *parser) callonListContinuationElement1295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1287()
+	return p.cur.onListContinuationElement1295()
 }
 
-func (c *current) onListContinuationElement1275(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1283(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1275() (interface{}, error) {
+func (p *parser) callonListContinuationElement1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1275(stack["delimiter"])
+	return p.cur.onListContinuationElement1283(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1294(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1302(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1294() (bool, error) {
+func (p *parser) callonListContinuationElement1302() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1294(stack["end"])
+	return p.cur.onListContinuationElement1302(stack["end"])
 }
 
-func (c *current) onListContinuationElement1200(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1208(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1208(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1308() (interface{}, error) {
+func (c *current) onListContinuationElement1316() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1308() (interface{}, error) {
+func (p *parser) callonListContinuationElement1316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1308()
+	return p.cur.onListContinuationElement1316()
 }
 
-func (c *current) onListContinuationElement1311() (interface{}, error) {
+func (c *current) onListContinuationElement1319() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1311() (interface{}, error) {
+func (p *parser) callonListContinuationElement1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1311()
+	return p.cur.onListContinuationElement1319()
 }
 
-func (c *current) onListContinuationElement1319() (interface{}, error) {
+func (c *current) onListContinuationElement1327() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1319() (interface{}, error) {
+func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1319()
+	return p.cur.onListContinuationElement1327()
 }
 
-func (c *current) onListContinuationElement1297() (interface{}, error) {
+func (c *current) onListContinuationElement1305() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1297() (interface{}, error) {
+func (p *parser) callonListContinuationElement1305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1297()
+	return p.cur.onListContinuationElement1305()
 }
 
-func (c *current) onListContinuationElement1331() (interface{}, error) {
+func (c *current) onListContinuationElement1339() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1331() (interface{}, error) {
+func (p *parser) callonListContinuationElement1339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1331()
+	return p.cur.onListContinuationElement1339()
 }
 
-func (c *current) onListContinuationElement1334() (interface{}, error) {
+func (c *current) onListContinuationElement1342() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1334() (interface{}, error) {
+func (p *parser) callonListContinuationElement1342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1334()
+	return p.cur.onListContinuationElement1342()
 }
 
-func (c *current) onListContinuationElement1349() (interface{}, error) {
+func (c *current) onListContinuationElement1357() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1349() (interface{}, error) {
+func (p *parser) callonListContinuationElement1357() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1349()
+	return p.cur.onListContinuationElement1357()
 }
 
-func (c *current) onListContinuationElement1352() (interface{}, error) {
+func (c *current) onListContinuationElement1360() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1352() (interface{}, error) {
+func (p *parser) callonListContinuationElement1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1352()
+	return p.cur.onListContinuationElement1360()
 }
 
-func (c *current) onListContinuationElement1344() (interface{}, error) {
+func (c *current) onListContinuationElement1352() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1344() (interface{}, error) {
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1344()
+	return p.cur.onListContinuationElement1352()
 }
 
-func (c *current) onListContinuationElement1366() (interface{}, error) {
+func (c *current) onListContinuationElement1374() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1366() (interface{}, error) {
+func (p *parser) callonListContinuationElement1374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1366()
+	return p.cur.onListContinuationElement1374()
 }
 
-func (c *current) onListContinuationElement1369() (interface{}, error) {
+func (c *current) onListContinuationElement1377() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1369() (interface{}, error) {
+func (p *parser) callonListContinuationElement1377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1369()
+	return p.cur.onListContinuationElement1377()
 }
 
-func (c *current) onListContinuationElement1391() (interface{}, error) {
+func (c *current) onListContinuationElement1399() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1391() (interface{}, error) {
+func (p *parser) callonListContinuationElement1399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1391()
+	return p.cur.onListContinuationElement1399()
 }
 
-func (c *current) onListContinuationElement1396() (interface{}, error) {
+func (c *current) onListContinuationElement1404() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1396() (interface{}, error) {
+func (p *parser) callonListContinuationElement1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1396()
+	return p.cur.onListContinuationElement1404()
 }
 
-func (c *current) onListContinuationElement1394(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1402(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1402() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394(stack["content"])
+	return p.cur.onListContinuationElement1402(stack["content"])
 }
 
-func (c *current) onListContinuationElement1387(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1395(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1387() (interface{}, error) {
+func (p *parser) callonListContinuationElement1395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1387(stack["content"])
+	return p.cur.onListContinuationElement1395(stack["content"])
 }
 
-func (c *current) onListContinuationElement1400() (interface{}, error) {
+func (c *current) onListContinuationElement1408() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1400() (interface{}, error) {
+func (p *parser) callonListContinuationElement1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1400()
+	return p.cur.onListContinuationElement1408()
 }
 
-func (c *current) onListContinuationElement1415() (interface{}, error) {
+func (c *current) onListContinuationElement1423() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1415() (interface{}, error) {
+func (p *parser) callonListContinuationElement1423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1415()
+	return p.cur.onListContinuationElement1423()
 }
 
-func (c *current) onListContinuationElement1418() (interface{}, error) {
+func (c *current) onListContinuationElement1426() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1418() (interface{}, error) {
+func (p *parser) callonListContinuationElement1426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1418()
+	return p.cur.onListContinuationElement1426()
 }
 
-func (c *current) onListContinuationElement1410() (interface{}, error) {
+func (c *current) onListContinuationElement1418() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+func (p *parser) callonListContinuationElement1418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1410()
+	return p.cur.onListContinuationElement1418()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1437() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1437() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1437()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1440() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1440()
 }
 
-func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1391(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1383() (interface{}, error) {
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1383(stack["cells"])
+	return p.cur.onListContinuationElement1391(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1467() (interface{}, error) {
+func (c *current) onListContinuationElement1475() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1467() (interface{}, error) {
+func (p *parser) callonListContinuationElement1475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1467()
+	return p.cur.onListContinuationElement1475()
 }
 
-func (c *current) onListContinuationElement1470() (interface{}, error) {
+func (c *current) onListContinuationElement1478() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1470() (interface{}, error) {
+func (p *parser) callonListContinuationElement1478() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1470()
+	return p.cur.onListContinuationElement1478()
 }
 
-func (c *current) onListContinuationElement1481() (interface{}, error) {
+func (c *current) onListContinuationElement1489() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+func (p *parser) callonListContinuationElement1489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1481()
+	return p.cur.onListContinuationElement1489()
 }
 
-func (c *current) onListContinuationElement1486() (interface{}, error) {
+func (c *current) onListContinuationElement1494() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1486() (interface{}, error) {
+func (p *parser) callonListContinuationElement1494() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1486()
+	return p.cur.onListContinuationElement1494()
 }
 
-func (c *current) onListContinuationElement1491() (interface{}, error) {
+func (c *current) onListContinuationElement1499() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1491() (interface{}, error) {
+func (p *parser) callonListContinuationElement1499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1491()
+	return p.cur.onListContinuationElement1499()
 }
 
-func (c *current) onListContinuationElement1489(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1497(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1489() (interface{}, error) {
+func (p *parser) callonListContinuationElement1497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1489(stack["content"])
+	return p.cur.onListContinuationElement1497(stack["content"])
 }
 
-func (c *current) onListContinuationElement1460(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1468(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell([]interface{}{content}, format)
 
 }
 
-func (p *parser) callonListContinuationElement1460() (interface{}, error) {
+func (p *parser) callonListContinuationElement1468() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1460(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1468(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1504() (interface{}, error) {
+func (c *current) onListContinuationElement1512() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1504() (interface{}, error) {
+func (p *parser) callonListContinuationElement1512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1504()
+	return p.cur.onListContinuationElement1512()
 }
 
-func (c *current) onListContinuationElement1507() (interface{}, error) {
+func (c *current) onListContinuationElement1515() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1507() (interface{}, error) {
+func (p *parser) callonListContinuationElement1515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1507()
+	return p.cur.onListContinuationElement1515()
 }
 
-func (c *current) onListContinuationElement1518() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1518() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1518()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1523() (interface{}, error) {
+func (c *current) onListContinuationElement1531() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1523() (interface{}, error) {
+func (p *parser) callonListContinuationElement1531() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1523()
+	return p.cur.onListContinuationElement1531()
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
+func (c *current) onListContinuationElement1534() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1534()
 }
 
-func (c *current) onListContinuationElement1543() (interface{}, error) {
+func (c *current) onListContinuationElement1551() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543()
+	return p.cur.onListContinuationElement1551()
 }
 
-func (c *current) onListContinuationElement1546() (interface{}, error) {
+func (c *current) onListContinuationElement1554() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1546() (interface{}, error) {
+func (p *parser) callonListContinuationElement1554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1546()
+	return p.cur.onListContinuationElement1554()
 }
 
-func (c *current) onListContinuationElement1538() (interface{}, error) {
+func (c *current) onListContinuationElement1546() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1538() (interface{}, error) {
+func (p *parser) callonListContinuationElement1546() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1538()
+	return p.cur.onListContinuationElement1546()
 }
 
-func (c *current) onListContinuationElement1557() (interface{}, error) {
+func (c *current) onListContinuationElement1565() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1557() (interface{}, error) {
+func (p *parser) callonListContinuationElement1565() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1557()
+	return p.cur.onListContinuationElement1565()
 }
 
-func (c *current) onListContinuationElement1560() (interface{}, error) {
+func (c *current) onListContinuationElement1568() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1568() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560()
+	return p.cur.onListContinuationElement1568()
 }
 
-func (c *current) onListContinuationElement1587() (interface{}, error) {
+func (c *current) onListContinuationElement1595() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1587() (interface{}, error) {
+func (p *parser) callonListContinuationElement1595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1587()
+	return p.cur.onListContinuationElement1595()
 }
 
-func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1593(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585(stack["content"])
+	return p.cur.onListContinuationElement1593(stack["content"])
 }
 
-func (c *current) onListContinuationElement1592() (interface{}, error) {
+func (c *current) onListContinuationElement1600() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1592() (interface{}, error) {
+func (p *parser) callonListContinuationElement1600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1592()
+	return p.cur.onListContinuationElement1600()
 }
 
-func (c *current) onListContinuationElement1533(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1541(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1533() (interface{}, error) {
+func (p *parser) callonListContinuationElement1541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1533(stack["content"])
+	return p.cur.onListContinuationElement1541(stack["content"])
 }
 
-func (c *current) onListContinuationElement1497(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1505(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1497() (interface{}, error) {
+func (p *parser) callonListContinuationElement1505() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1497(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1505(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1456(cells, last interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1464(cells, last interface{}) (interface{}, error) {
 	return append(cells.([]interface{}), last), nil
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1464() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["cells"], stack["last"])
+	return p.cur.onListContinuationElement1464(stack["cells"], stack["last"])
 }
 
-func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1388(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1380() (interface{}, error) {
+func (p *parser) callonListContinuationElement1388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1380(stack["cells"])
+	return p.cur.onListContinuationElement1388(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1604() (interface{}, error) {
+func (c *current) onListContinuationElement1612() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1604() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1604()
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1615() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1615()
 }
 
-func (c *current) onListContinuationElement1599() (interface{}, error) {
+func (c *current) onListContinuationElement1607() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1599() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1599()
+	return p.cur.onListContinuationElement1607()
 }
 
-func (c *current) onListContinuationElement1359(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1367(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1359() (interface{}, error) {
+func (p *parser) callonListContinuationElement1367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1359(stack["content"])
+	return p.cur.onListContinuationElement1367(stack["content"])
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1626() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1626()
 }
 
-func (c *current) onListContinuationElement1621() (interface{}, error) {
+func (c *current) onListContinuationElement1629() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1621() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1621()
+	return p.cur.onListContinuationElement1629()
 }
 
-func (c *current) onListContinuationElement1327(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1335(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1327() (interface{}, error) {
+func (p *parser) callonListContinuationElement1335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1327(stack["lines"])
+	return p.cur.onListContinuationElement1335(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1636() (interface{}, error) {
+func (c *current) onListContinuationElement1644() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1636() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1636()
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1640() (interface{}, error) {
+func (c *current) onListContinuationElement1648() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1640() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1640()
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1630(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1638(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1630() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1630(stack["content"])
+	return p.cur.onListContinuationElement1638(stack["content"])
 }
 
-func (c *current) onListContinuationElement1653() (bool, error) {
+func (c *current) onListContinuationElement1661() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1653() (bool, error) {
+func (p *parser) callonListContinuationElement1661() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1653()
+	return p.cur.onListContinuationElement1661()
 }
 
-func (c *current) onListContinuationElement1656() (interface{}, error) {
+func (c *current) onListContinuationElement1664() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1658() (interface{}, error) {
+func (c *current) onListContinuationElement1666() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1658() (interface{}, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1658()
+	return p.cur.onListContinuationElement1666()
 }
 
-func (c *current) onListContinuationElement1660() (interface{}, error) {
+func (c *current) onListContinuationElement1668() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660()
+	return p.cur.onListContinuationElement1668()
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1670() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1670()
 }
 
-func (c *current) onListContinuationElement1664() (interface{}, error) {
+func (c *current) onListContinuationElement1672() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1664() (interface{}, error) {
+func (p *parser) callonListContinuationElement1672() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664()
+	return p.cur.onListContinuationElement1672()
 }
 
-func (c *current) onListContinuationElement1668() (interface{}, error) {
+func (c *current) onListContinuationElement1676() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668()
+	return p.cur.onListContinuationElement1676()
 }
 
-func (c *current) onListContinuationElement1666() (interface{}, error) {
+func (c *current) onListContinuationElement1674() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1666() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1666()
+	return p.cur.onListContinuationElement1674()
 }
 
-func (c *current) onListContinuationElement1674() (interface{}, error) {
+func (c *current) onListContinuationElement1682() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1674() (interface{}, error) {
+func (p *parser) callonListContinuationElement1682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1674()
+	return p.cur.onListContinuationElement1682()
 }
 
-func (c *current) onListContinuationElement1677() (interface{}, error) {
+func (c *current) onListContinuationElement1685() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1677() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1677()
+	return p.cur.onListContinuationElement1685()
 }
 
-func (c *current) onListContinuationElement1651(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1659(style interface{}) (interface{}, error) {
 	// there must be some content on the line
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1659() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651(stack["style"])
+	return p.cur.onListContinuationElement1659(stack["style"])
 }
 
-func (c *current) onListContinuationElement1693() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1693() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1693()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1696() (interface{}, error) {
+func (c *current) onListContinuationElement1704() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1696() (interface{}, error) {
+func (p *parser) callonListContinuationElement1704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1696()
+	return p.cur.onListContinuationElement1704()
 }
 
-func (c *current) onListContinuationElement1688() (interface{}, error) {
+func (c *current) onListContinuationElement1696() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1688() (interface{}, error) {
+func (p *parser) callonListContinuationElement1696() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1688()
+	return p.cur.onListContinuationElement1696()
 }
 
-func (c *current) onListContinuationElement1707() (interface{}, error) {
+func (c *current) onListContinuationElement1715() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707()
+	return p.cur.onListContinuationElement1715()
 }
 
-func (c *current) onListContinuationElement1710() (interface{}, error) {
+func (c *current) onListContinuationElement1718() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1710() (interface{}, error) {
+func (p *parser) callonListContinuationElement1718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1710()
+	return p.cur.onListContinuationElement1718()
 }
 
-func (c *current) onListContinuationElement1721() (interface{}, error) {
+func (c *current) onListContinuationElement1729() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1721() (interface{}, error) {
+func (p *parser) callonListContinuationElement1729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1721()
+	return p.cur.onListContinuationElement1729()
 }
 
-func (c *current) onListContinuationElement1728() (interface{}, error) {
+func (c *current) onListContinuationElement1736() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonListContinuationElement1736() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728()
+	return p.cur.onListContinuationElement1736()
 }
 
-func (c *current) onListContinuationElement1731(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1739(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (bool, error) {
+func (p *parser) callonListContinuationElement1739() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731(stack["depth"])
+	return p.cur.onListContinuationElement1739(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1725(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1733(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -68722,756 +69506,803 @@ func (c *current) onListContinuationElement1725(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725(stack["depth"])
+	return p.cur.onListContinuationElement1733(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1740() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1740()
 }
 
-func (c *current) onListContinuationElement1737() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1737() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1741() (interface{}, error) {
+func (c *current) onListContinuationElement1749() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1741() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1741()
+	return p.cur.onListContinuationElement1749()
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1753() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1753()
 }
 
-func (c *current) onListContinuationElement1750() (interface{}, error) {
+func (c *current) onListContinuationElement1758() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1750() (interface{}, error) {
+func (p *parser) callonListContinuationElement1758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1750()
+	return p.cur.onListContinuationElement1758()
 }
 
-func (c *current) onListContinuationElement1755(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1763(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1755() (interface{}, error) {
+func (p *parser) callonListContinuationElement1763() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1755(stack["prefix"])
+	return p.cur.onListContinuationElement1763(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1718(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1726(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1718() (interface{}, error) {
+func (p *parser) callonListContinuationElement1726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1718(stack["prefix"])
+	return p.cur.onListContinuationElement1726(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1770() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1770()
 }
 
-func (c *current) onListContinuationElement1765() (interface{}, error) {
+func (c *current) onListContinuationElement1773() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1765() (interface{}, error) {
+func (p *parser) callonListContinuationElement1773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1765()
+	return p.cur.onListContinuationElement1773()
 }
 
-func (c *current) onListContinuationElement1770(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1778(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1770() (bool, error) {
+func (p *parser) callonListContinuationElement1778() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1770(stack["style"])
+	return p.cur.onListContinuationElement1778(stack["style"])
 }
 
-func (c *current) onListContinuationElement1771(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1779(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1771() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1771(stack["style"])
+	return p.cur.onListContinuationElement1779(stack["style"])
 }
 
-func (c *current) onListContinuationElement1759(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1767(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1759() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1759(stack["style"])
+	return p.cur.onListContinuationElement1767(stack["style"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1787() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1787()
 }
 
-func (c *current) onListContinuationElement1783(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1791(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783(stack["ref"])
+	return p.cur.onListContinuationElement1791(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1775(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1783(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775(stack["ref"])
+	return p.cur.onListContinuationElement1783(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1801() (interface{}, error) {
+func (c *current) onListContinuationElement1809() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801()
+	return p.cur.onListContinuationElement1809()
 }
 
-func (c *current) onListContinuationElement1804(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1812(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (bool, error) {
+func (p *parser) callonListContinuationElement1812() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804(stack["separator"])
+	return p.cur.onListContinuationElement1812(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1798(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1806(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1806() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798(stack["separator"])
+	return p.cur.onListContinuationElement1806(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1815() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1815()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1796() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1796()
 }
 
-func (c *current) onListContinuationElement1818() (interface{}, error) {
+func (c *current) onListContinuationElement1826() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1818() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1818()
+	return p.cur.onListContinuationElement1826()
 }
 
-func (c *current) onListContinuationElement1821(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1829(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1821() (bool, error) {
+func (p *parser) callonListContinuationElement1829() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1821(stack["separator"])
+	return p.cur.onListContinuationElement1829(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1815(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1823(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1815() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1815(stack["separator"])
+	return p.cur.onListContinuationElement1823(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1832() (interface{}, error) {
+func (c *current) onListContinuationElement1840() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1832() (interface{}, error) {
+func (p *parser) callonListContinuationElement1840() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1832()
+	return p.cur.onListContinuationElement1840()
 }
 
-func (c *current) onListContinuationElement1838() (interface{}, error) {
+func (c *current) onListContinuationElement1846() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1838() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1838()
+	return p.cur.onListContinuationElement1846()
 }
 
-func (c *current) onListContinuationElement1841() (interface{}, error) {
+func (c *current) onListContinuationElement1849() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1841() (interface{}, error) {
+func (p *parser) callonListContinuationElement1849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1841()
+	return p.cur.onListContinuationElement1849()
 }
 
-func (c *current) onListContinuationElement1829(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1837(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1829() (interface{}, error) {
+func (p *parser) callonListContinuationElement1837() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1829(stack["delimiter"])
+	return p.cur.onListContinuationElement1837(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onListContinuationElement1859() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonListContinuationElement1859() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onListContinuationElement1859()
 }
 
-func (c *current) onListContinuationElement1857() (interface{}, error) {
+func (c *current) onListContinuationElement1865() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1857() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1857()
+	return p.cur.onListContinuationElement1865()
 }
 
-func (c *current) onListContinuationElement1860() (interface{}, error) {
+func (c *current) onListContinuationElement1868() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1860() (interface{}, error) {
+func (p *parser) callonListContinuationElement1868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1860()
+	return p.cur.onListContinuationElement1868()
 }
 
-func (c *current) onListContinuationElement1848(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1856(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonListContinuationElement1856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848(stack["delimiter"])
+	return p.cur.onListContinuationElement1856(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1871() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onListContinuationElement1878() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871()
+	return p.cur.onListContinuationElement1878()
 }
 
-func (c *current) onListContinuationElement1875() (interface{}, error) {
+func (c *current) onListContinuationElement1881() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1881()
+}
+
+func (c *current) onListContinuationElement1884() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1884()
+}
+
+func (c *current) onListContinuationElement1875(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+
+}
+
 func (p *parser) callonListContinuationElement1875() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1875()
+	return p.cur.onListContinuationElement1875(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1878() (interface{}, error) {
+func (c *current) onListContinuationElement1895() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1895()
+}
+
+func (c *current) onListContinuationElement1899() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1899() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1899()
+}
+
+func (c *current) onListContinuationElement1902() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1878() (interface{}, error) {
+func (p *parser) callonListContinuationElement1902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1878()
+	return p.cur.onListContinuationElement1902()
 }
 
-func (c *current) onListContinuationElement1867(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1891(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1867() (interface{}, error) {
+func (p *parser) callonListContinuationElement1891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1867(stack["language"])
+	return p.cur.onListContinuationElement1891(stack["language"])
 }
 
-func (c *current) onListContinuationElement1888() (interface{}, error) {
+func (c *current) onListContinuationElement1912() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1888() (interface{}, error) {
+func (p *parser) callonListContinuationElement1912() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1888()
+	return p.cur.onListContinuationElement1912()
 }
 
-func (c *current) onListContinuationElement1894() (interface{}, error) {
+func (c *current) onListContinuationElement1918() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1894() (interface{}, error) {
+func (p *parser) callonListContinuationElement1918() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1894()
+	return p.cur.onListContinuationElement1918()
 }
 
-func (c *current) onListContinuationElement1897() (interface{}, error) {
+func (c *current) onListContinuationElement1921() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1897() (interface{}, error) {
+func (p *parser) callonListContinuationElement1921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1897()
+	return p.cur.onListContinuationElement1921()
 }
 
-func (c *current) onListContinuationElement1885(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1909(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1885() (interface{}, error) {
+func (p *parser) callonListContinuationElement1909() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1885(stack["delimiter"])
+	return p.cur.onListContinuationElement1909(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1907() (interface{}, error) {
+func (c *current) onListContinuationElement1931() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1907() (interface{}, error) {
+func (p *parser) callonListContinuationElement1931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1907()
+	return p.cur.onListContinuationElement1931()
 }
 
-func (c *current) onListContinuationElement1913() (interface{}, error) {
+func (c *current) onListContinuationElement1937() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1913() (interface{}, error) {
+func (p *parser) callonListContinuationElement1937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1913()
+	return p.cur.onListContinuationElement1937()
 }
 
-func (c *current) onListContinuationElement1916() (interface{}, error) {
+func (c *current) onListContinuationElement1940() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1916() (interface{}, error) {
+func (p *parser) callonListContinuationElement1940() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1916()
+	return p.cur.onListContinuationElement1940()
 }
 
-func (c *current) onListContinuationElement1904(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1928(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1928() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904(stack["delimiter"])
+	return p.cur.onListContinuationElement1928(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1926() (interface{}, error) {
+func (c *current) onListContinuationElement1950() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1926() (interface{}, error) {
+func (p *parser) callonListContinuationElement1950() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1926()
+	return p.cur.onListContinuationElement1950()
 }
 
-func (c *current) onListContinuationElement1932() (interface{}, error) {
+func (c *current) onListContinuationElement1956() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1932() (interface{}, error) {
+func (p *parser) callonListContinuationElement1956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1932()
+	return p.cur.onListContinuationElement1956()
 }
 
-func (c *current) onListContinuationElement1935() (interface{}, error) {
+func (c *current) onListContinuationElement1959() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1935() (interface{}, error) {
+func (p *parser) callonListContinuationElement1959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1935()
+	return p.cur.onListContinuationElement1959()
 }
 
-func (c *current) onListContinuationElement1923(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1947(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1923() (interface{}, error) {
+func (p *parser) callonListContinuationElement1947() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1923(stack["delimiter"])
+	return p.cur.onListContinuationElement1947(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1945() (interface{}, error) {
+func (c *current) onListContinuationElement1969() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1945() (interface{}, error) {
+func (p *parser) callonListContinuationElement1969() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1945()
+	return p.cur.onListContinuationElement1969()
 }
 
-func (c *current) onListContinuationElement1951() (interface{}, error) {
+func (c *current) onListContinuationElement1975() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1951() (interface{}, error) {
+func (p *parser) callonListContinuationElement1975() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1951()
+	return p.cur.onListContinuationElement1975()
 }
 
-func (c *current) onListContinuationElement1954() (interface{}, error) {
+func (c *current) onListContinuationElement1978() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1954() (interface{}, error) {
+func (p *parser) callonListContinuationElement1978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1954()
+	return p.cur.onListContinuationElement1978()
 }
 
-func (c *current) onListContinuationElement1942(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1966(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1942() (interface{}, error) {
+func (p *parser) callonListContinuationElement1966() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1942(stack["delimiter"])
+	return p.cur.onListContinuationElement1966(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1964() (interface{}, error) {
+func (c *current) onListContinuationElement1988() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1964() (interface{}, error) {
+func (p *parser) callonListContinuationElement1988() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1964()
+	return p.cur.onListContinuationElement1988()
 }
 
-func (c *current) onListContinuationElement1970() (interface{}, error) {
+func (c *current) onListContinuationElement1994() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1970() (interface{}, error) {
+func (p *parser) callonListContinuationElement1994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1970()
+	return p.cur.onListContinuationElement1994()
 }
 
-func (c *current) onListContinuationElement1973() (interface{}, error) {
+func (c *current) onListContinuationElement1997() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1973() (interface{}, error) {
+func (p *parser) callonListContinuationElement1997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1973()
+	return p.cur.onListContinuationElement1997()
 }
 
-func (c *current) onListContinuationElement1961(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1985(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1961() (interface{}, error) {
+func (p *parser) callonListContinuationElement1985() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1961(stack["delimiter"])
+	return p.cur.onListContinuationElement1985(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1983() (interface{}, error) {
+func (c *current) onListContinuationElement2007() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1983() (interface{}, error) {
+func (p *parser) callonListContinuationElement2007() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1983()
+	return p.cur.onListContinuationElement2007()
 }
 
-func (c *current) onListContinuationElement1989() (interface{}, error) {
+func (c *current) onListContinuationElement2013() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1989() (interface{}, error) {
+func (p *parser) callonListContinuationElement2013() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1989()
+	return p.cur.onListContinuationElement2013()
 }
 
-func (c *current) onListContinuationElement1992() (interface{}, error) {
+func (c *current) onListContinuationElement2016() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1992() (interface{}, error) {
+func (p *parser) callonListContinuationElement2016() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1992()
+	return p.cur.onListContinuationElement2016()
 }
 
-func (c *current) onListContinuationElement1980(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement2004(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1980() (interface{}, error) {
+func (p *parser) callonListContinuationElement2004() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1980(stack["delimiter"])
+	return p.cur.onListContinuationElement2004(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1831(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823(stack["delimiter"])
+	return p.cur.onListContinuationElement1831(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement2000() (interface{}, error) {
+func (c *current) onListContinuationElement2024() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement2000() (interface{}, error) {
+func (p *parser) callonListContinuationElement2024() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2000()
+	return p.cur.onListContinuationElement2024()
 }
 
-func (c *current) onListContinuationElement2004() (interface{}, error) {
+func (c *current) onListContinuationElement2028() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement2004() (interface{}, error) {
+func (p *parser) callonListContinuationElement2028() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2004()
+	return p.cur.onListContinuationElement2028()
 }
 
-func (c *current) onListContinuationElement1685(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1693(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1693() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685(stack["content"])
+	return p.cur.onListContinuationElement1693(stack["content"])
 }
 
-func (c *current) onListContinuationElement1647(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1655(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1655() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1655(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
@@ -69868,330 +70699,377 @@ func (p *parser) callonShortcutParagraph114() (interface{}, error) {
 	return p.cur.onShortcutParagraph114(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph137() (interface{}, error) {
+func (c *current) onShortcutParagraph136() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph136() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph136()
+}
+
+func (c *current) onShortcutParagraph139() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph139() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph139()
+}
+
+func (c *current) onShortcutParagraph142() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph142() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph142()
+}
+
+func (c *current) onShortcutParagraph133(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph133() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph133(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph153() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph137() (interface{}, error) {
+func (p *parser) callonShortcutParagraph153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph137()
+	return p.cur.onShortcutParagraph153()
 }
 
-func (c *current) onShortcutParagraph141() (interface{}, error) {
+func (c *current) onShortcutParagraph157() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph141() (interface{}, error) {
+func (p *parser) callonShortcutParagraph157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph141()
+	return p.cur.onShortcutParagraph157()
 }
 
-func (c *current) onShortcutParagraph144() (interface{}, error) {
+func (c *current) onShortcutParagraph160() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph144() (interface{}, error) {
+func (p *parser) callonShortcutParagraph160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph144()
+	return p.cur.onShortcutParagraph160()
 }
 
-func (c *current) onShortcutParagraph133(language interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph149(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph133() (interface{}, error) {
+func (p *parser) callonShortcutParagraph149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph133(stack["language"])
+	return p.cur.onShortcutParagraph149(stack["language"])
 }
 
-func (c *current) onShortcutParagraph154() (interface{}, error) {
+func (c *current) onShortcutParagraph170() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph154() (interface{}, error) {
+func (p *parser) callonShortcutParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph154()
+	return p.cur.onShortcutParagraph170()
 }
 
-func (c *current) onShortcutParagraph160() (interface{}, error) {
+func (c *current) onShortcutParagraph176() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph160() (interface{}, error) {
+func (p *parser) callonShortcutParagraph176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph160()
+	return p.cur.onShortcutParagraph176()
 }
 
-func (c *current) onShortcutParagraph163() (interface{}, error) {
+func (c *current) onShortcutParagraph179() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph163() (interface{}, error) {
+func (p *parser) callonShortcutParagraph179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph163()
+	return p.cur.onShortcutParagraph179()
 }
 
-func (c *current) onShortcutParagraph151(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph167(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph151() (interface{}, error) {
+func (p *parser) callonShortcutParagraph167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph151(stack["delimiter"])
+	return p.cur.onShortcutParagraph167(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph173() (interface{}, error) {
+func (c *current) onShortcutParagraph189() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph173() (interface{}, error) {
+func (p *parser) callonShortcutParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph173()
+	return p.cur.onShortcutParagraph189()
 }
 
-func (c *current) onShortcutParagraph179() (interface{}, error) {
+func (c *current) onShortcutParagraph195() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph179() (interface{}, error) {
+func (p *parser) callonShortcutParagraph195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph179()
+	return p.cur.onShortcutParagraph195()
 }
 
-func (c *current) onShortcutParagraph182() (interface{}, error) {
+func (c *current) onShortcutParagraph198() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph182() (interface{}, error) {
+func (p *parser) callonShortcutParagraph198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph182()
+	return p.cur.onShortcutParagraph198()
 }
 
-func (c *current) onShortcutParagraph170(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph186(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph170() (interface{}, error) {
+func (p *parser) callonShortcutParagraph186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph170(stack["delimiter"])
+	return p.cur.onShortcutParagraph186(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph192() (interface{}, error) {
+func (c *current) onShortcutParagraph208() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph192() (interface{}, error) {
+func (p *parser) callonShortcutParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph192()
+	return p.cur.onShortcutParagraph208()
 }
 
-func (c *current) onShortcutParagraph198() (interface{}, error) {
+func (c *current) onShortcutParagraph214() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph198() (interface{}, error) {
+func (p *parser) callonShortcutParagraph214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph198()
+	return p.cur.onShortcutParagraph214()
 }
 
-func (c *current) onShortcutParagraph201() (interface{}, error) {
+func (c *current) onShortcutParagraph217() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph201() (interface{}, error) {
+func (p *parser) callonShortcutParagraph217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph201()
+	return p.cur.onShortcutParagraph217()
 }
 
-func (c *current) onShortcutParagraph189(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph205(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph189() (interface{}, error) {
+func (p *parser) callonShortcutParagraph205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph189(stack["delimiter"])
+	return p.cur.onShortcutParagraph205(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph211() (interface{}, error) {
+func (c *current) onShortcutParagraph227() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph211() (interface{}, error) {
+func (p *parser) callonShortcutParagraph227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph211()
+	return p.cur.onShortcutParagraph227()
 }
 
-func (c *current) onShortcutParagraph217() (interface{}, error) {
+func (c *current) onShortcutParagraph233() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph217() (interface{}, error) {
+func (p *parser) callonShortcutParagraph233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph217()
+	return p.cur.onShortcutParagraph233()
 }
 
-func (c *current) onShortcutParagraph220() (interface{}, error) {
+func (c *current) onShortcutParagraph236() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph220() (interface{}, error) {
+func (p *parser) callonShortcutParagraph236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph220()
+	return p.cur.onShortcutParagraph236()
 }
 
-func (c *current) onShortcutParagraph208(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph224(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph208() (interface{}, error) {
+func (p *parser) callonShortcutParagraph224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph208(stack["delimiter"])
+	return p.cur.onShortcutParagraph224(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph230() (interface{}, error) {
+func (c *current) onShortcutParagraph246() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph230() (interface{}, error) {
+func (p *parser) callonShortcutParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph230()
+	return p.cur.onShortcutParagraph246()
 }
 
-func (c *current) onShortcutParagraph236() (interface{}, error) {
+func (c *current) onShortcutParagraph252() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph236() (interface{}, error) {
+func (p *parser) callonShortcutParagraph252() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph236()
+	return p.cur.onShortcutParagraph252()
 }
 
-func (c *current) onShortcutParagraph239() (interface{}, error) {
+func (c *current) onShortcutParagraph255() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph239() (interface{}, error) {
+func (p *parser) callonShortcutParagraph255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph239()
+	return p.cur.onShortcutParagraph255()
 }
 
-func (c *current) onShortcutParagraph227(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph243(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph227() (interface{}, error) {
+func (p *parser) callonShortcutParagraph243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph227(stack["delimiter"])
+	return p.cur.onShortcutParagraph243(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph249() (interface{}, error) {
+func (c *current) onShortcutParagraph265() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph249() (interface{}, error) {
+func (p *parser) callonShortcutParagraph265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph249()
+	return p.cur.onShortcutParagraph265()
 }
 
-func (c *current) onShortcutParagraph255() (interface{}, error) {
+func (c *current) onShortcutParagraph271() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph255() (interface{}, error) {
+func (p *parser) callonShortcutParagraph271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph255()
+	return p.cur.onShortcutParagraph271()
 }
 
-func (c *current) onShortcutParagraph258() (interface{}, error) {
+func (c *current) onShortcutParagraph274() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph258() (interface{}, error) {
+func (p *parser) callonShortcutParagraph274() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph258()
+	return p.cur.onShortcutParagraph274()
 }
 
-func (c *current) onShortcutParagraph246(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph262(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph246() (interface{}, error) {
+func (p *parser) callonShortcutParagraph262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph246(stack["delimiter"])
+	return p.cur.onShortcutParagraph262(stack["delimiter"])
 }
 
 func (c *current) onShortcutParagraph89(delimiter interface{}) (interface{}, error) {
@@ -70205,106 +71083,106 @@ func (p *parser) callonShortcutParagraph89() (interface{}, error) {
 	return p.cur.onShortcutParagraph89(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph269() (interface{}, error) {
+func (c *current) onShortcutParagraph285() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph269() (interface{}, error) {
+func (p *parser) callonShortcutParagraph285() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph269()
+	return p.cur.onShortcutParagraph285()
 }
 
-func (c *current) onShortcutParagraph272() (interface{}, error) {
+func (c *current) onShortcutParagraph288() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph272() (interface{}, error) {
+func (p *parser) callonShortcutParagraph288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph272()
+	return p.cur.onShortcutParagraph288()
 }
 
-func (c *current) onShortcutParagraph287() (interface{}, error) {
+func (c *current) onShortcutParagraph303() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph287() (interface{}, error) {
+func (p *parser) callonShortcutParagraph303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph287()
+	return p.cur.onShortcutParagraph303()
 }
 
-func (c *current) onShortcutParagraph291() (interface{}, error) {
+func (c *current) onShortcutParagraph307() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph291() (interface{}, error) {
+func (p *parser) callonShortcutParagraph307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph291()
+	return p.cur.onShortcutParagraph307()
 }
 
-func (c *current) onShortcutParagraph281(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph297(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph281() (interface{}, error) {
+func (p *parser) callonShortcutParagraph297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph281(stack["content"])
+	return p.cur.onShortcutParagraph297(stack["content"])
 }
 
-func (c *current) onShortcutParagraph301() (interface{}, error) {
+func (c *current) onShortcutParagraph317() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph301() (interface{}, error) {
+func (p *parser) callonShortcutParagraph317() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph301()
+	return p.cur.onShortcutParagraph317()
 }
 
-func (c *current) onShortcutParagraph304(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph320(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // skip blank lines
 
 }
 
-func (p *parser) callonShortcutParagraph304() (bool, error) {
+func (p *parser) callonShortcutParagraph320() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph304(stack["content"])
+	return p.cur.onShortcutParagraph320(stack["content"])
 }
 
-func (c *current) onShortcutParagraph306() (interface{}, error) {
+func (c *current) onShortcutParagraph322() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph306() (interface{}, error) {
+func (p *parser) callonShortcutParagraph322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph306()
+	return p.cur.onShortcutParagraph322()
 }
 
-func (c *current) onShortcutParagraph298(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph314(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph298() (interface{}, error) {
+func (p *parser) callonShortcutParagraph314() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph298(stack["content"])
+	return p.cur.onShortcutParagraph314(stack["content"])
 }
 
 func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 134530b..1e0fd03 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -725,7 +725,7 @@ BlockDelimiter <-
     delimiter:(
         CommentBlockDelimiter
         / ExampleBlockDelimiter
-        / MarkdownCodeDelimiter // TODO: could be merged with FencedBlockDelimiter since the `language` attribute is not relevant where `BlockDelimiter` rule is used
+        / OpenBlockDelimiter / MarkdownCodeDelimiter
         / FencedBlockDelimiter
         / ListingBlockDelimiter
         / LiteralBlockDelimiter
@@ -783,7 +783,7 @@ LiteralBlockDelimiter <-
     delimiter:("...." "."* { // sequence of 4 "." chars or more
         return string(c.text), nil
     }) Space* EOL { 
-        return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+        return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
     }
 
 PassthroughBlockDelimiter <- 
@@ -817,15 +817,15 @@ DelimitedBlockRawLine <-
 // Comment Blocks
 // ----------------
 CommentBlock <-
-    CommentBlockStartDelimiter
+    start:CommentBlockDelimiter &{
+        return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+    }
     content:(CommentBlockContent)
     CommentBlockEndDelimiter? {
         return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
     }
 
-CommentBlockStartDelimiter <- CommentBlockDelimiter
-
-CommentBlockEndDelimiter <- CommentBlockDelimiter / EOF
+CommentBlockEndDelimiter <- end:CommentBlockDelimiter&{return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)} / EOF
 
 CommentBlockContent <- 
     (!CommentBlockEndDelimiter
-- 
2.43.0


From 63560c4f3e9139ec1d5e5eced87a7e32ea70e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:49 +0000
Subject: [PATCH 72/76] fix: render the values of attributes with special
 characters in the header of the document, the captions and the icons, and the
 description with the XHTML backend

---
 pkg/renderer/sgml/context.go        | 5 +++++
 pkg/renderer/sgml/xhtml5/article.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index dec6332..a9e3574 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -74,6 +74,11 @@ func (ctx *context) hrefOf(id string) string {
 // since such attributes take precedence over the ones defined in the document
 func (ctx *context) setAttribute(name string, value interface{}) {
 	if !ctx.config.Attributes.Has(name) {
+		if elements, ok := value.([]interface{}); ok && name != types.AttrTableOfContentsTitle { // (whose elements are rendered)
+			if v, err := RenderPlainText(elements, WithoutEscape()); err == nil {
+				value = v
+			}
+		}
 		ctx.attributes[name] = value
 	}
 }
diff --git a/pkg/renderer/sgml/xhtml5/article.go b/pkg/renderer/sgml/xhtml5/article.go
index cf8983d..17ddc75 100644
--- a/pkg/renderer/sgml/xhtml5/article.go
+++ b/pkg/renderer/sgml/xhtml5/article.go
@@ -8,6 +8,7 @@ const (
 		"<meta http-equiv=\"X-UA-Compatible\" content=\"IE=edge\"/>\n" +
 		"<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\"/>\n" +
 		"{{ if .Generator }}<meta name=\"generator\" content=\"{{ .Generator }}\"/>\n{{ end }}" +
+		"{{ if .Description }}<meta name=\"description\" content=\"{{ .Description }}\"/>\n{{ end }}" +
 		"{{ if .Authors }}<meta name=\"author\" content=\"{{ .Authors }}\"/>\n{{ end }}" +
 		"{{ range $css := .CSS }}<link type=\"text/css\" rel=\"stylesheet\" href=\"{{ $css }}\"/>\n{{ end }}" +
 		"<title>{{ .Title }}</title>\n" +
-- 
2.43.0


From 59f05c04fea5ebf17f096337feee299645996cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:25 +0000
Subject: [PATCH 73/76] fix: support the special characters in the author and
 email attributes

---
 pkg/types/types.go       |  4 ++--
 pkg/types/types_utils.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 3e9d888..4ac60b3 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -356,7 +356,7 @@ elements:
 					break elements
 				}
 			case AttrEmail:
-				if email, ok := e.Value.(string); ok {
+				if email, ok := textOf(e.Value); ok {
 					if result == nil {
 						result = DocumentAuthors{
 							&DocumentAuthor{},
@@ -365,7 +365,7 @@ elements:
 					result[0].Email = email
 				}
 			case AttrAuthor:
-				if author, ok := e.Value.(string); ok {
+				if author, ok := textOf(e.Value); ok {
 					if result == nil {
 						result = DocumentAuthors{
 							&DocumentAuthor{
diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 2e5f2d0..868ad17 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -151,6 +151,18 @@ func Apply(source string, fs ...applyFunc) string {
 	return result
 }
 
+// textOf returns the text of the value of an attribute (eg: with special characters)
+func textOf(value interface{}) (string, bool) {
+	switch value := value.(type) {
+	case string:
+		return value, true
+	case []interface{}:
+		return stringify(value), true
+	default:
+		return "", false
+	}
+}
+
 func stringify(element interface{}) string {
 	switch element := element.(type) {
 	case []interface{}:
-- 
2.43.0


From 1886c14d857819c423d98ec6d7e583fa8f1eac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:57 +0000
Subject: [PATCH 74/76] fix: support the underscores in the names of
 attributes, the revision numbers with a single digit, and the initials of the
 authors which are not in ASCII

---
 pkg/parser/parser.go  | 706 +++++++++++++++++++++---------------------
 pkg/parser/parser.peg |   6 +-
 pkg/types/types.go    |   7 +-
 3 files changed, 359 insertions(+), 360 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 89861c9..c8a4eb3 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -76,9 +76,9 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9791},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		pos:        position{line: 318, col: 28, offset: 9790},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -181,9 +181,9 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9791},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		pos:        position{line: 318, col: 28, offset: 9790},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -498,9 +498,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -551,9 +551,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -634,9 +634,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -687,9 +687,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -761,9 +761,9 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9791},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -814,9 +814,9 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9791},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1103,9 +1103,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1156,9 +1156,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1239,9 +1239,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1292,9 +1292,9 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 318, col: 28, offset: 9790},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9791},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														pos:        position{line: 318, col: 28, offset: 9790},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1366,9 +1366,9 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9791},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1419,9 +1419,9 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9791},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -2821,9 +2821,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2874,9 +2874,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2927,9 +2927,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -3036,9 +3036,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -4232,9 +4232,9 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9791},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			pos:        position{line: 318, col: 28, offset: 9790},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4337,9 +4337,9 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9791},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			pos:        position{line: 318, col: 28, offset: 9790},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -10981,9 +10981,9 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 318, col: 28, offset: 9790},
 											expr: &charClassMatcher{
-												pos:        position{line: 318, col: 29, offset: 9791},
-												val:        "[-\\pL\\pN]",
-												chars:      []rune{'-'},
+												pos:        position{line: 318, col: 28, offset: 9790},
+												val:        "[_-\\pL\\pN]",
+												chars:      []rune{'_', '-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
@@ -11393,9 +11393,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11446,9 +11446,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11499,9 +11499,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11608,9 +11608,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11848,9 +11848,9 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9791},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				pos:        position{line: 318, col: 28, offset: 9790},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11901,9 +11901,9 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9791},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				pos:        position{line: 318, col: 28, offset: 9790},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11954,9 +11954,9 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9791},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				pos:        position{line: 318, col: 28, offset: 9790},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -12063,9 +12063,9 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 318, col: 28, offset: 9790},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9791},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				pos:        position{line: 318, col: 28, offset: 9790},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -12466,9 +12466,9 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9791},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12519,9 +12519,9 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 318, col: 28, offset: 9790},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9791},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -13272,9 +13272,9 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9791},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											pos:        position{line: 318, col: 28, offset: 9790},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13325,9 +13325,9 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9791},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											pos:        position{line: 318, col: 28, offset: 9790},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13378,9 +13378,9 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9791},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											pos:        position{line: 318, col: 28, offset: 9790},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13487,9 +13487,9 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 318, col: 28, offset: 9790},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9791},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											pos:        position{line: 318, col: 28, offset: 9790},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -14068,9 +14068,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14121,9 +14121,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14174,9 +14174,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14283,9 +14283,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14582,9 +14582,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14635,9 +14635,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14688,9 +14688,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14797,9 +14797,9 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 318, col: 28, offset: 9790},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9791},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							pos:        position{line: 318, col: 28, offset: 9790},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -15038,9 +15038,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15091,9 +15091,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15144,9 +15144,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15253,9 +15253,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15497,9 +15497,9 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 318, col: 28, offset: 9790},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9791},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					pos:        position{line: 318, col: 28, offset: 9790},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15550,9 +15550,9 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 318, col: 28, offset: 9790},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9791},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					pos:        position{line: 318, col: 28, offset: 9790},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15794,9 +15794,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15847,9 +15847,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15900,9 +15900,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16009,9 +16009,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -18191,7 +18191,7 @@ var g = &grammar{
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
-																												&oneOrMoreExpr{
+																												&zeroOrMoreExpr{
 																													pos: position{line: 1179, col: 38, offset: 36491},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 1179, col: 38, offset: 36491},
@@ -18226,7 +18226,7 @@ var g = &grammar{
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
-																												&oneOrMoreExpr{
+																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 17, offset: 36551},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 1181, col: 17, offset: 36551},
@@ -18480,9 +18480,9 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9791},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			pos:        position{line: 318, col: 28, offset: 9790},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -18585,9 +18585,9 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 318, col: 28, offset: 9790},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9791},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			pos:        position{line: 318, col: 28, offset: 9790},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -19822,9 +19822,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19875,9 +19875,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19928,9 +19928,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20037,9 +20037,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20455,9 +20455,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20508,9 +20508,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20561,9 +20561,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20670,9 +20670,9 @@ var g = &grammar{
 																													&zeroOrMoreExpr{
 																														pos: position{line: 318, col: 28, offset: 9790},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9791},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															pos:        position{line: 318, col: 28, offset: 9790},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -21326,9 +21326,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21379,9 +21379,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21432,9 +21432,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21541,9 +21541,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -22005,9 +22005,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22058,9 +22058,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22111,9 +22111,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22220,9 +22220,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22705,9 +22705,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22758,9 +22758,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22811,9 +22811,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22920,9 +22920,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23273,9 +23273,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23326,9 +23326,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23379,9 +23379,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23488,9 +23488,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23856,9 +23856,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23909,9 +23909,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23962,9 +23962,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24071,9 +24071,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24427,9 +24427,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24480,9 +24480,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24533,9 +24533,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24642,9 +24642,9 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 318, col: 28, offset: 9790},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9791},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	pos:        position{line: 318, col: 28, offset: 9790},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -31074,9 +31074,9 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9791},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		pos:        position{line: 318, col: 28, offset: 9790},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -31179,9 +31179,9 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 318, col: 28, offset: 9790},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9791},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		pos:        position{line: 318, col: 28, offset: 9790},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -41739,9 +41739,9 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9791},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				pos:        position{line: 318, col: 28, offset: 9790},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41792,9 +41792,9 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9791},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				pos:        position{line: 318, col: 28, offset: 9790},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41845,9 +41845,9 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9791},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				pos:        position{line: 318, col: 28, offset: 9790},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -41954,9 +41954,9 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 318, col: 28, offset: 9790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9791},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				pos:        position{line: 318, col: 28, offset: 9790},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -44002,9 +44002,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44055,9 +44055,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44108,9 +44108,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44217,9 +44217,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44513,9 +44513,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44566,9 +44566,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44619,9 +44619,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -44728,9 +44728,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -45373,9 +45373,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -45426,9 +45426,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -45479,9 +45479,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -45588,9 +45588,9 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 318, col: 28, offset: 9790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9791},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								pos:        position{line: 318, col: 28, offset: 9790},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -45850,9 +45850,9 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9791},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					pos:        position{line: 318, col: 28, offset: 9790},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -45903,9 +45903,9 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9791},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					pos:        position{line: 318, col: 28, offset: 9790},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -45956,9 +45956,9 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9791},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					pos:        position{line: 318, col: 28, offset: 9790},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -46065,9 +46065,9 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 318, col: 28, offset: 9790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9791},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					pos:        position{line: 318, col: 28, offset: 9790},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -46658,9 +46658,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -46711,9 +46711,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -46764,9 +46764,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -46873,9 +46873,9 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 318, col: 28, offset: 9790},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9791},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													pos:        position{line: 318, col: 28, offset: 9790},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -49493,9 +49493,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -49546,9 +49546,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -49599,9 +49599,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -49708,9 +49708,9 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 318, col: 28, offset: 9790},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9791},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									pos:        position{line: 318, col: 28, offset: 9790},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 1e0fd03..c364d76 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -315,7 +315,7 @@ AttributeDeclaration <-
 // AttributeName must be at least one character long, 
 // must begin with a word character (A-Z, a-z, 0-9) or an underscore ("_") 
 // and must only contain word characters (A-Z, a-z, 0-9) and hyphens ("-").
-AttributeName <- [\pL\pN_] ([\pL\pN-])* {
+AttributeName <- [\pL\pN_] [\pL\pN_-]*  {
         return string(c.text), nil
     }
 
@@ -1176,9 +1176,9 @@ DocumentRevision <- Space* !":" revision:(
 }
 
 // DocumentRevisionNumber MUST start with a `v` or MAY start with a `v` but MUST end with a `,`
-DocumentRevisionNumber <- "v"i [0-9] [^:,\r\n]+ {
+DocumentRevisionNumber <- "v"i [0-9] [^:,\r\n]* {
     return string(c.text), nil
-} / "v"i? [0-9] [^:,\r\n]+ Space* &"," {
+} / "v"i? [0-9] [^:,\r\n]* Space* &"," {
     return string(c.text), nil
 }
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 4ac60b3..1bd26d7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/davecgh/go-spew/spew"
 	"github.com/pkg/errors"
@@ -509,10 +510,8 @@ func key(k string, i int) string {
 }
 
 func initial(s string) string {
-	if len(s) > 0 {
-		return s[0:1]
-	}
-	return ""
+	_, size := utf8.DecodeRuneInString(s)
+	return s[:size]
 }
 
 // DocumentAuthor a document author
-- 
2.43.0


From cde61c48d3117da452989af68b5b51621b91dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:46 +0000
Subject: [PATCH 75/76] fix: number the titled example blocks and the contents
 of tables in the order of the document

---
 pkg/renderer/sgml/delimited_block_example.go | 37 +++++++++++---------
 pkg/renderer/sgml/table.go                   |  4 +--
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index 2c02c94..831b6df 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -13,32 +13,35 @@ import (
 func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	// default, example block
 	number := 0
-	content, err := r.renderElements(ctx, b.Elements)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render example block content")
-	}
 	roles, err := r.renderElementRoles(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block roles")
 	}
-	c, found := b.Attributes.GetAsString(types.AttrCaption)
-	if !found {
-		c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
-		if found && c != "" {
-			c += " {counter:example-number}. "
-		}
-	}
-	// TODO: Replace this hack when we have attribute substitution fully working
-	if strings.Contains(c, "{counter:example-number}") {
-		number = ctx.GetAndIncrementExampleBlockCounter()
-		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
-	}
 	title, err := r.renderElementTitle(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block title")
 	}
 	caption := &strings.Builder{}
-	caption.WriteString(escapeText(c))
+	if title != "" {
+		c, found := b.Attributes.GetAsString(types.AttrCaption)
+		if !found {
+			c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
+			if found && c != "" {
+				c += " {counter:example-number}. "
+			}
+		}
+		// TODO: Replace this hack when we have attribute substitution fully working
+		if strings.Contains(c, "{counter:example-number}") {
+			number = ctx.GetAndIncrementExampleBlockCounter()
+			c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
+		}
+		caption.WriteString(escapeText(c))
+	}
+	// render the content afterwards: the blocks within are numbered after this one
+	content, err := r.renderElements(ctx, b.Elements)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render example block content")
+	}
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index ed9ff4a..bca5ab3 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -66,11 +66,11 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
-	footer, err := r.renderTableFooter(ctx, t.Footer, columns)
+	body, err := r.renderTableBody(ctx, t.Rows, columns)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
-	body, err := r.renderTableBody(ctx, t.Rows, columns)
+	footer, err := r.renderTableFooter(ctx, t.Footer, columns)
 	if err != nil {
 		return "", errors.Wrap(err, "failed to render table")
 	}
-- 
2.43.0


From 2a788d957ba623d1559251288308ae863d2000e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:46 +0000
Subject: [PATCH 76/76] fix: support the escaped counters, the start of the
 hidden ones, their current value and their use in titles

---
 ...document_processing_apply_substitutions.go |   66 +-
 pkg/parser/parser.go                          | 8120 ++++++-----------
 pkg/parser/parser.peg                         |   20 +-
 3 files changed, 2679 insertions(+), 5527 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 7d7906e..4b20ea4 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -109,6 +109,7 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 	}
 	b.Value = v
 	ctx.attributes.set(b.Name, b.Value)
+	delete(ctx.counters, b.Name)
 	if b.Name == types.AttrExperimental {
 		ctx.opts = append(ctx.opts, enableExperimentalMacros(true)) // TODO: add `ctx.ExperimentalMacrosEnabled()` instead?
 	}
@@ -138,6 +139,7 @@ func expandAttributeRefs(ctx *ParseContext, value interface{}) interface{} {
 
 func applySubstitutionsOnAttributeReset(ctx *ParseContext, b *types.AttributeReset, _ ...Option) error {
 	ctx.attributes.unset(b.Name)
+	delete(ctx.counters, b.Name)
 	if b.Name == types.AttrExperimental {
 		ctx.opts = append(ctx.opts, enableExperimentalMacros(false))
 	}
@@ -643,41 +645,55 @@ func fullNames(authors []*types.DocumentAuthor) string {
 	return strings.Join(names, ", ")
 }
 
+// valueForCounter returns the next value of the given counter, which is also the value of the attribute with the same name
 func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, error) {
-	counter := ctx.counters[c.Name]
-	if counter == nil {
-		counter = 0
-	}
-	increment := true
-	if c.Value != nil {
-		ctx.counters[c.Name] = c.Value
+	counter, found := currentCounter(ctx, c.Name)
+	switch {
+	case !found && c.Value != nil:
 		counter = c.Value
-		increment = false
+	case !found:
+		counter = 1
 	}
-	switch counter := counter.(type) {
+	var value string
+	switch v := counter.(type) {
 	case int:
-		if increment {
-			counter++
-		}
-		ctx.counters[c.Name] = counter
-		if c.Hidden {
-			// return empty string facilitates merging
-			return "", nil
+		if found {
+			v++
 		}
-		return strconv.Itoa(counter), nil
+		ctx.counters[c.Name] = v
+		value = strconv.Itoa(v)
 	case rune:
-		if increment {
-			counter++
-		}
-		ctx.counters[c.Name] = counter
-		if c.Hidden {
-			// return empty string facilitates merging
-			return "", nil
+		if found {
+			v++
 		}
-		return string(counter), nil
+		ctx.counters[c.Name] = v
+		value = string(v)
 	default:
 		return "", fmt.Errorf("unexpected type of counter value: '%T'", counter)
 	}
+	ctx.attributes.set(c.Name, value)
+	if c.Hidden {
+		// return empty string facilitates merging
+		return "", nil
+	}
+	return value, nil
+}
+
+// currentCounter returns the current value of the counter with the given name, or the one of the attribute if it was
+// declared since then
+func currentCounter(ctx *ParseContext, name string) (interface{}, bool) {
+	if counter, found := ctx.counters[name]; found {
+		return counter, true
+	}
+	v, _ := ctx.attributes.get(name)
+	s, _ := v.(string)
+	if s == "" {
+		return nil, false
+	}
+	if i, err := strconv.Atoi(s); err == nil {
+		return i, true
+	}
+	return []rune(s)[0], true
 }
 
 // parseElementsWithSubstitutions parse the elements, using placeholders for existing "structured" elements (ie, not RawLine or StringElements)
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index c8a4eb3..2ab21ad 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20363},
+																						pos: position{line: 645, col: 5, offset: 20367},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20363},
+																							pos: position{line: 645, col: 5, offset: 20367},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20363},
+																									pos:        position{line: 645, col: 5, offset: 20367},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20371},
+																									pos:   position{line: 645, col: 13, offset: 20375},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20390},
+																									pos:        position{line: 645, col: 32, offset: 20394},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20631},
+																						pos: position{line: 652, col: 5, offset: 20635},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20631},
+																							pos: position{line: 652, col: 5, offset: 20635},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20631},
+																									pos:        position{line: 652, col: 5, offset: 20635},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20635},
+																									pos:   position{line: 652, col: 9, offset: 20639},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20654},
+																									pos:        position{line: 652, col: 28, offset: 20658},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20363},
+																						pos: position{line: 645, col: 5, offset: 20367},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20363},
+																							pos: position{line: 645, col: 5, offset: 20367},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20363},
+																									pos:        position{line: 645, col: 5, offset: 20367},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20371},
+																									pos:   position{line: 645, col: 13, offset: 20375},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20390},
+																									pos:        position{line: 645, col: 32, offset: 20394},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20631},
+																						pos: position{line: 652, col: 5, offset: 20635},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20631},
+																							pos: position{line: 652, col: 5, offset: 20635},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20631},
+																									pos:        position{line: 652, col: 5, offset: 20635},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20635},
+																									pos:   position{line: 652, col: 9, offset: 20639},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20654},
+																									pos:        position{line: 652, col: 28, offset: 20658},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20363},
+																		pos: position{line: 645, col: 5, offset: 20367},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20363},
+																					pos: position{line: 645, col: 5, offset: 20367},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20363},
+																							pos:        position{line: 645, col: 5, offset: 20367},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20371},
+																							pos:   position{line: 645, col: 13, offset: 20375},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20390},
+																							pos:        position{line: 645, col: 32, offset: 20394},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20631},
+																				pos: position{line: 652, col: 5, offset: 20635},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20631},
+																					pos: position{line: 652, col: 5, offset: 20635},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20631},
+																							pos:        position{line: 652, col: 5, offset: 20635},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20635},
+																							pos:   position{line: 652, col: 9, offset: 20639},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20654},
+																							pos:        position{line: 652, col: 28, offset: 20658},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20363},
+																						pos: position{line: 645, col: 5, offset: 20367},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20363},
+																							pos: position{line: 645, col: 5, offset: 20367},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20363},
+																									pos:        position{line: 645, col: 5, offset: 20367},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20371},
+																									pos:   position{line: 645, col: 13, offset: 20375},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20390},
+																									pos:        position{line: 645, col: 32, offset: 20394},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20631},
+																						pos: position{line: 652, col: 5, offset: 20635},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20631},
+																							pos: position{line: 652, col: 5, offset: 20635},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20631},
+																									pos:        position{line: 652, col: 5, offset: 20635},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20635},
+																									pos:   position{line: 652, col: 9, offset: 20639},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20654},
+																									pos:        position{line: 652, col: 28, offset: 20658},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20363},
+																						pos: position{line: 645, col: 5, offset: 20367},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20363},
+																							pos: position{line: 645, col: 5, offset: 20367},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20363},
+																									pos:        position{line: 645, col: 5, offset: 20367},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20371},
+																									pos:   position{line: 645, col: 13, offset: 20375},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20390},
+																									pos:        position{line: 645, col: 32, offset: 20394},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20631},
+																						pos: position{line: 652, col: 5, offset: 20635},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20631},
+																							pos: position{line: 652, col: 5, offset: 20635},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20631},
+																									pos:        position{line: 652, col: 5, offset: 20635},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20635},
+																									pos:   position{line: 652, col: 9, offset: 20639},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20654},
+																									pos:        position{line: 652, col: 28, offset: 20658},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20363},
+																		pos: position{line: 645, col: 5, offset: 20367},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20363},
+																					pos: position{line: 645, col: 5, offset: 20367},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20363},
+																							pos:        position{line: 645, col: 5, offset: 20367},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20371},
+																							pos:   position{line: 645, col: 13, offset: 20375},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20390},
+																							pos:        position{line: 645, col: 32, offset: 20394},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20631},
+																				pos: position{line: 652, col: 5, offset: 20635},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20631},
+																					pos: position{line: 652, col: 5, offset: 20635},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20631},
+																							pos:        position{line: 652, col: 5, offset: 20635},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20635},
+																							pos:   position{line: 652, col: 9, offset: 20639},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20654},
+																							pos:        position{line: 652, col: 28, offset: 20658},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -2774,35 +2774,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20153},
+																			pos: position{line: 636, col: 5, offset: 20157},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
+																						pos: position{line: 636, col: 5, offset: 20157},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20225},
+																						pos:   position{line: 639, col: 5, offset: 20229},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20234},
+																							pos: position{line: 639, col: 14, offset: 20238},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20363},
+																									pos: position{line: 645, col: 5, offset: 20367},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20363},
+																										pos: position{line: 645, col: 5, offset: 20367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20363},
+																												pos:        position{line: 645, col: 5, offset: 20367},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20371},
+																												pos:   position{line: 645, col: 13, offset: 20375},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -2834,7 +2834,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20390},
+																												pos:        position{line: 645, col: 32, offset: 20394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2843,19 +2843,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20631},
+																									pos: position{line: 652, col: 5, offset: 20635},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20631},
+																										pos: position{line: 652, col: 5, offset: 20635},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20631},
+																												pos:        position{line: 652, col: 5, offset: 20635},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20635},
+																												pos:   position{line: 652, col: 9, offset: 20639},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -2887,7 +2887,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20654},
+																												pos:        position{line: 652, col: 28, offset: 20658},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2896,132 +2896,51 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20835},
+																									pos: position{line: 659, col: 21, offset: 20883},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20835},
+																										pos: position{line: 659, col: 21, offset: 20883},
 																										exprs: []interface{}{
+																											&zeroOrOneExpr{
+																												pos: position{line: 659, col: 21, offset: 20883},
+																												expr: &litMatcher{
+																													pos:        position{line: 659, col: 21, offset: 20883},
+																													val:        "\\",
+																													ignoreCase: false,
+																													want:       "\"\\\\\"",
+																												},
+																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20835},
-																												val:        "{counter:",
+																												pos:        position{line: 659, col: 26, offset: 20888},
+																												val:        "{counter",
 																												ignoreCase: false,
-																												want:       "\"{counter:\"",
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20847},
-																												label: "name",
-																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonFileInclusion59,
-																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9780},
-																														exprs: []interface{}{
-																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9780},
-																																val:        "[_\\pL\\pN]",
-																																chars:      []rune{'_'},
-																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9790},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 28, offset: 9790},
-																																	val:        "[_-\\pL\\pN]",
-																																	chars:      []rune{'_', '-'},
-																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
+																												want:       "\"{counter\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20866},
-																												label: "start",
+																												pos:   position{line: 659, col: 37, offset: 20899},
+																												label: "hidden",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20872},
-																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonFileInclusion66,
-																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21167},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21167},
-																																	val:        ":",
-																																	ignoreCase: false,
-																																	want:       "\":\"",
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21171},
-																																	label: "start",
-																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		alternatives: []interface{}{
-																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonFileInclusion71,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21178},
-																																					val:        "[A-Za-z]",
-																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonFileInclusion73,
-																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21232},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21232},
-																																						val:        "[0-9]",
-																																						ranges:     []rune{'0', '9'},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
+																													pos: position{line: 659, col: 44, offset: 20906},
+																													expr: &litMatcher{
+																														pos:        position{line: 659, col: 45, offset: 20907},
+																														val:        "2",
+																														ignoreCase: false,
+																														want:       "\"2\"",
 																													},
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20888},
-																												val:        "}",
-																												ignoreCase: false,
-																												want:       "\"}\"",
-																											},
-																										},
-																									},
-																								},
-																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21006},
-																									run: (*parser).callonFileInclusion77,
-																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21006},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21006},
-																												val:        "{counter2:",
+																												pos:        position{line: 659, col: 51, offset: 20913},
+																												val:        ":",
 																												ignoreCase: false,
-																												want:       "\"{counter2:\"",
+																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21019},
+																												pos:   position{line: 659, col: 55, offset: 20917},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonFileInclusion81,
+																													run: (*parser).callonFileInclusion65,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -3049,13 +2968,13 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21038},
+																												pos:   position{line: 659, col: 74, offset: 20936},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21044},
+																													pos: position{line: 659, col: 80, offset: 20942},
 																													expr: &actionExpr{
 																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonFileInclusion88,
+																														run: (*parser).callonFileInclusion72,
 																														expr: &seqExpr{
 																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
@@ -3073,7 +2992,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonFileInclusion93,
+																																				run: (*parser).callonFileInclusion77,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
@@ -3084,7 +3003,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonFileInclusion95,
+																																				run: (*parser).callonFileInclusion79,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
@@ -3105,7 +3024,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21060},
+																												pos:        position{line: 659, col: 96, offset: 20958},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3121,7 +3040,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1198, col: 23, offset: 37016},
-																			run: (*parser).callonFileInclusion99,
+																			run: (*parser).callonFileInclusion83,
 																			expr: &seqExpr{
 																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
@@ -3136,7 +3055,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1198, col: 56, offset: 37049},
-																							run: (*parser).callonFileInclusion103,
+																							run: (*parser).callonFileInclusion87,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
@@ -3160,7 +3079,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 2854, col: 11, offset: 90493},
-																			run: (*parser).callonFileInclusion107,
+																			run: (*parser).callonFileInclusion91,
 																			expr: &litMatcher{
 																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
@@ -3192,7 +3111,7 @@ var g = &grammar{
 							pos: position{line: 142, col: 5, offset: 4049},
 							expr: &actionExpr{
 								pos: position{line: 2875, col: 10, offset: 90978},
-								run: (*parser).callonFileInclusion112,
+								run: (*parser).callonFileInclusion96,
 								expr: &charClassMatcher{
 									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
@@ -3207,7 +3126,7 @@ var g = &grammar{
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2884, col: 12, offset: 91149},
-									run: (*parser).callonFileInclusion115,
+									run: (*parser).callonFileInclusion99,
 									expr: &choiceExpr{
 										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
@@ -11346,35 +11265,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20153},
+										pos: position{line: 636, col: 5, offset: 20157},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20153},
+													pos: position{line: 636, col: 5, offset: 20157},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20225},
+													pos:   position{line: 639, col: 5, offset: 20229},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20234},
+														pos: position{line: 639, col: 14, offset: 20238},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20363},
+																pos: position{line: 645, col: 5, offset: 20367},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20363},
+																			pos:        position{line: 645, col: 5, offset: 20367},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20371},
+																			pos:   position{line: 645, col: 13, offset: 20375},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
@@ -11406,7 +11325,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20390},
+																			pos:        position{line: 645, col: 32, offset: 20394},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11415,19 +11334,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20631},
+																pos: position{line: 652, col: 5, offset: 20635},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20631},
+																			pos:        position{line: 652, col: 5, offset: 20635},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20635},
+																			pos:   position{line: 652, col: 9, offset: 20639},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
@@ -11459,7 +11378,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20654},
+																			pos:        position{line: 652, col: 28, offset: 20658},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11468,132 +11387,51 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20835},
+																pos: position{line: 659, col: 21, offset: 20883},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	exprs: []interface{}{
+																		&zeroOrOneExpr{
+																			pos: position{line: 659, col: 21, offset: 20883},
+																			expr: &litMatcher{
+																				pos:        position{line: 659, col: 21, offset: 20883},
+																				val:        "\\",
+																				ignoreCase: false,
+																				want:       "\"\\\\\"",
+																			},
+																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20835},
-																			val:        "{counter:",
+																			pos:        position{line: 659, col: 26, offset: 20888},
+																			val:        "{counter",
 																			ignoreCase: false,
-																			want:       "\"{counter:\"",
+																			want:       "\"{counter\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20847},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9780},
-																				run: (*parser).callonAttributeDeclarationValueElement61,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9780},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9790},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 28, offset: 9790},
-																								val:        "[_-\\pL\\pN]",
-																								chars:      []rune{'_', '-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20866},
-																			label: "start",
+																			pos:   position{line: 659, col: 37, offset: 20899},
+																			label: "hidden",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20872},
-																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21167},
-																					run: (*parser).callonAttributeDeclarationValueElement68,
-																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21167},
-																								val:        ":",
-																								ignoreCase: false,
-																								want:       "\":\"",
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21171},
-																								label: "start",
-																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21178},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21178},
-																											run: (*parser).callonAttributeDeclarationValueElement73,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21178},
-																												val:        "[A-Za-z]",
-																												ranges:     []rune{'A', 'Z', 'a', 'z'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21232},
-																											run: (*parser).callonAttributeDeclarationValueElement75,
-																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21232},
-																													val:        "[0-9]",
-																													ranges:     []rune{'0', '9'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
+																				pos: position{line: 659, col: 44, offset: 20906},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 45, offset: 20907},
+																					val:        "2",
+																					ignoreCase: false,
+																					want:       "\"2\"",
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20888},
-																			val:        "}",
+																			pos:        position{line: 659, col: 51, offset: 20913},
+																			val:        ":",
 																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
-																	},
-																},
-															},
-															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21006},
-																run: (*parser).callonAttributeDeclarationValueElement79,
-																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21006},
-																			val:        "{counter2:",
-																			ignoreCase: false,
-																			want:       "\"{counter2:\"",
+																			want:       "\":\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21019},
+																			pos:   position{line: 659, col: 55, offset: 20917},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
-																				run: (*parser).callonAttributeDeclarationValueElement83,
+																				run: (*parser).callonAttributeDeclarationValueElement67,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
@@ -11621,13 +11459,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21038},
+																			pos:   position{line: 659, col: 74, offset: 20936},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21044},
+																				pos: position{line: 659, col: 80, offset: 20942},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21167},
-																					run: (*parser).callonAttributeDeclarationValueElement90,
+																					run: (*parser).callonAttributeDeclarationValueElement74,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
@@ -11645,7 +11483,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21178},
-																											run: (*parser).callonAttributeDeclarationValueElement95,
+																											run: (*parser).callonAttributeDeclarationValueElement79,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
@@ -11656,7 +11494,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21232},
-																											run: (*parser).callonAttributeDeclarationValueElement97,
+																											run: (*parser).callonAttributeDeclarationValueElement81,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
@@ -11677,7 +11515,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21060},
+																			pos:        position{line: 659, col: 96, offset: 20958},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11801,35 +11639,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
+																						pos: position{line: 636, col: 5, offset: 20157},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20153},
+																							pos: position{line: 636, col: 5, offset: 20157},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20153},
+																									pos: position{line: 636, col: 5, offset: 20157},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20225},
+																									pos:   position{line: 639, col: 5, offset: 20229},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20234},
+																										pos: position{line: 639, col: 14, offset: 20238},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20363},
+																												pos: position{line: 645, col: 5, offset: 20367},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20363},
+																													pos: position{line: 645, col: 5, offset: 20367},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20363},
+																															pos:        position{line: 645, col: 5, offset: 20367},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20371},
+																															pos:   position{line: 645, col: 13, offset: 20375},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9780},
@@ -11861,7 +11699,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20390},
+																															pos:        position{line: 645, col: 32, offset: 20394},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11870,19 +11708,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20631},
+																												pos: position{line: 652, col: 5, offset: 20635},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20631},
+																													pos: position{line: 652, col: 5, offset: 20635},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20631},
+																															pos:        position{line: 652, col: 5, offset: 20635},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20635},
+																															pos:   position{line: 652, col: 9, offset: 20639},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9780},
@@ -11914,7 +11752,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20654},
+																															pos:        position{line: 652, col: 28, offset: 20658},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11923,132 +11761,51 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20835},
+																												pos: position{line: 659, col: 21, offset: 20883},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20835},
+																													pos: position{line: 659, col: 21, offset: 20883},
 																													exprs: []interface{}{
+																														&zeroOrOneExpr{
+																															pos: position{line: 659, col: 21, offset: 20883},
+																															expr: &litMatcher{
+																																pos:        position{line: 659, col: 21, offset: 20883},
+																																val:        "\\",
+																																ignoreCase: false,
+																																want:       "\"\\\\\"",
+																															},
+																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20835},
-																															val:        "{counter:",
+																															pos:        position{line: 659, col: 26, offset: 20888},
+																															val:        "{counter",
 																															ignoreCase: false,
-																															want:       "\"{counter:\"",
+																															want:       "\"{counter\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20847},
-																															label: "name",
-																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9780},
-																																run: (*parser).callonBlockAttributes56,
-																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9780},
-																																	exprs: []interface{}{
-																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9780},
-																																			val:        "[_\\pL\\pN]",
-																																			chars:      []rune{'_'},
-																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																			ignoreCase: false,
-																																			inverted:   false,
-																																		},
-																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9790},
-																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 28, offset: 9790},
-																																				val:        "[_-\\pL\\pN]",
-																																				chars:      []rune{'_', '-'},
-																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
-																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20866},
-																															label: "start",
+																															pos:   position{line: 659, col: 37, offset: 20899},
+																															label: "hidden",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20872},
-																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21167},
-																																	run: (*parser).callonBlockAttributes63,
-																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21167},
-																																		exprs: []interface{}{
-																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21167},
-																																				val:        ":",
-																																				ignoreCase: false,
-																																				want:       "\":\"",
-																																			},
-																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21171},
-																																				label: "start",
-																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21178},
-																																					alternatives: []interface{}{
-																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21178},
-																																							run: (*parser).callonBlockAttributes68,
-																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21178},
-																																								val:        "[A-Za-z]",
-																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																								ignoreCase: false,
-																																								inverted:   false,
-																																							},
-																																						},
-																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21232},
-																																							run: (*parser).callonBlockAttributes70,
-																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21232},
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21232},
-																																									val:        "[0-9]",
-																																									ranges:     []rune{'0', '9'},
-																																									ignoreCase: false,
-																																									inverted:   false,
-																																								},
-																																							},
-																																						},
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
+																																pos: position{line: 659, col: 44, offset: 20906},
+																																expr: &litMatcher{
+																																	pos:        position{line: 659, col: 45, offset: 20907},
+																																	val:        "2",
+																																	ignoreCase: false,
+																																	want:       "\"2\"",
 																																},
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20888},
-																															val:        "}",
-																															ignoreCase: false,
-																															want:       "\"}\"",
-																														},
-																													},
-																												},
-																											},
-																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 21006},
-																												run: (*parser).callonBlockAttributes74,
-																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 21006},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 21006},
-																															val:        "{counter2:",
+																															pos:        position{line: 659, col: 51, offset: 20913},
+																															val:        ":",
 																															ignoreCase: false,
-																															want:       "\"{counter2:\"",
+																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 21019},
+																															pos:   position{line: 659, col: 55, offset: 20917},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9780},
-																																run: (*parser).callonBlockAttributes78,
+																																run: (*parser).callonBlockAttributes62,
 																																expr: &seqExpr{
 																																	pos: position{line: 318, col: 18, offset: 9780},
 																																	exprs: []interface{}{
@@ -12076,13 +11833,13 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 21038},
+																															pos:   position{line: 659, col: 74, offset: 20936},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21044},
+																																pos: position{line: 659, col: 80, offset: 20942},
 																																expr: &actionExpr{
 																																	pos: position{line: 666, col: 17, offset: 21167},
-																																	run: (*parser).callonBlockAttributes85,
+																																	run: (*parser).callonBlockAttributes69,
 																																	expr: &seqExpr{
 																																		pos: position{line: 666, col: 17, offset: 21167},
 																																		exprs: []interface{}{
@@ -12100,7 +11857,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 666, col: 28, offset: 21178},
-																																							run: (*parser).callonBlockAttributes90,
+																																							run: (*parser).callonBlockAttributes74,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 666, col: 28, offset: 21178},
 																																								val:        "[A-Za-z]",
@@ -12111,7 +11868,7 @@ var g = &grammar{
 																																						},
 																																						&actionExpr{
 																																							pos: position{line: 668, col: 9, offset: 21232},
-																																							run: (*parser).callonBlockAttributes92,
+																																							run: (*parser).callonBlockAttributes76,
 																																							expr: &oneOrMoreExpr{
 																																								pos: position{line: 668, col: 9, offset: 21232},
 																																								expr: &charClassMatcher{
@@ -12132,7 +11889,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21060},
+																															pos:        position{line: 659, col: 96, offset: 20958},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12148,7 +11905,7 @@ var g = &grammar{
 																					},
 																					&actionExpr{
 																						pos: position{line: 412, col: 16, offset: 12661},
-																						run: (*parser).callonBlockAttributes96,
+																						run: (*parser).callonBlockAttributes80,
 																						expr: &litMatcher{
 																							pos:        position{line: 412, col: 16, offset: 12661},
 																							val:        "{",
@@ -12176,7 +11933,7 @@ var g = &grammar{
 												pos: position{line: 372, col: 35, offset: 11531},
 												expr: &actionExpr{
 													pos: position{line: 2875, col: 10, offset: 90978},
-													run: (*parser).callonBlockAttributes100,
+													run: (*parser).callonBlockAttributes84,
 													expr: &charClassMatcher{
 														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
@@ -12191,7 +11948,7 @@ var g = &grammar{
 												alternatives: []interface{}{
 													&actionExpr{
 														pos: position{line: 2884, col: 12, offset: 91149},
-														run: (*parser).callonBlockAttributes103,
+														run: (*parser).callonBlockAttributes87,
 														expr: &choiceExpr{
 															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
@@ -12228,7 +11985,7 @@ var g = &grammar{
 												pos: position{line: 372, col: 46, offset: 11542},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21533},
-													run: (*parser).callonBlockAttributes111,
+													run: (*parser).callonBlockAttributes95,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
@@ -12242,7 +11999,7 @@ var g = &grammar{
 																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
 																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonBlockAttributes116,
+																	run: (*parser).callonBlockAttributes100,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
@@ -12257,7 +12014,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonBlockAttributes119,
+																		run: (*parser).callonBlockAttributes103,
 																		expr: &choiceExpr{
 																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
@@ -12299,7 +12056,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 376, col: 12, offset: 11663},
-									run: (*parser).callonBlockAttributes126,
+									run: (*parser).callonBlockAttributes110,
 									expr: &seqExpr{
 										pos: position{line: 376, col: 12, offset: 11663},
 										exprs: []interface{}{
@@ -12308,7 +12065,7 @@ var g = &grammar{
 												label: "title",
 												expr: &actionExpr{
 													pos: position{line: 423, col: 19, offset: 12966},
-													run: (*parser).callonBlockAttributes129,
+													run: (*parser).callonBlockAttributes113,
 													expr: &seqExpr{
 														pos: position{line: 423, col: 19, offset: 12966},
 														exprs: []interface{}{
@@ -12329,16 +12086,16 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13088},
+																pos:   position{line: 425, col: 5, offset: 13073},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13097},
+																	pos: position{line: 425, col: 14, offset: 13082},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13107},
+																		pos: position{line: 426, col: 9, offset: 13092},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2769, col: 14, offset: 88147},
-																				run: (*parser).callonBlockAttributes137,
+																				run: (*parser).callonBlockAttributes121,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 2769, col: 14, offset: 88147},
 																					expr: &charClassMatcher{
@@ -12352,7 +12109,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2875, col: 10, offset: 90978},
-																				run: (*parser).callonBlockAttributes140,
+																				run: (*parser).callonBlockAttributes124,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2875, col: 10, offset: 90978},
 																					val:        "[\\t ]",
@@ -12363,7 +12120,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2792, col: 5, offset: 88632},
-																				run: (*parser).callonBlockAttributes142,
+																				run: (*parser).callonBlockAttributes126,
 																				expr: &choiceExpr{
 																					pos: position{line: 2793, col: 9, offset: 88642},
 																					alternatives: []interface{}{
@@ -12379,7 +12136,7 @@ var g = &grammar{
 																							exprs: []interface{}{
 																								&andCodeExpr{
 																									pos: position{line: 2795, col: 13, offset: 88740},
-																									run: (*parser).callonBlockAttributes146,
+																									run: (*parser).callonBlockAttributes130,
 																								},
 																								&litMatcher{
 																									pos:        position{line: 2798, col: 13, offset: 88840},
@@ -12400,7 +12157,7 @@ var g = &grammar{
 																							exprs: []interface{}{
 																								&andCodeExpr{
 																									pos: position{line: 2801, col: 13, offset: 88884},
-																									run: (*parser).callonBlockAttributes150,
+																									run: (*parser).callonBlockAttributes134,
 																								},
 																								&charClassMatcher{
 																									pos:        position{line: 2804, col: 14, offset: 88977},
@@ -12435,23 +12192,23 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
-																				run: (*parser).callonBlockAttributes156,
+																				pos: position{line: 645, col: 5, offset: 20367},
+																				run: (*parser).callonBlockAttributes140,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20363},
+																					pos: position{line: 645, col: 5, offset: 20367},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20363},
+																							pos:        position{line: 645, col: 5, offset: 20367},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20371},
+																							pos:   position{line: 645, col: 13, offset: 20375},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
-																								run: (*parser).callonBlockAttributes160,
+																								run: (*parser).callonBlockAttributes144,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
 																									exprs: []interface{}{
@@ -12479,7 +12236,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20390},
+																							pos:        position{line: 645, col: 32, offset: 20394},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12488,19 +12245,100 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20631},
-																				run: (*parser).callonBlockAttributes166,
+																				pos: position{line: 652, col: 5, offset: 20635},
+																				run: (*parser).callonBlockAttributes150,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20631},
+																					pos: position{line: 652, col: 5, offset: 20635},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20631},
+																							pos:        position{line: 652, col: 5, offset: 20635},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20635},
+																							pos:   position{line: 652, col: 9, offset: 20639},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 318, col: 18, offset: 9780},
+																								run: (*parser).callonBlockAttributes154,
+																								expr: &seqExpr{
+																									pos: position{line: 318, col: 18, offset: 9780},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 318, col: 18, offset: 9780},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 318, col: 28, offset: 9790},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 318, col: 28, offset: 9790},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 652, col: 28, offset: 20658},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 659, col: 21, offset: 20883},
+																				run: (*parser).callonBlockAttributes160,
+																				expr: &seqExpr{
+																					pos: position{line: 659, col: 21, offset: 20883},
+																					exprs: []interface{}{
+																						&zeroOrOneExpr{
+																							pos: position{line: 659, col: 21, offset: 20883},
+																							expr: &litMatcher{
+																								pos:        position{line: 659, col: 21, offset: 20883},
+																								val:        "\\",
+																								ignoreCase: false,
+																								want:       "\"\\\\\"",
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 659, col: 26, offset: 20888},
+																							val:        "{counter",
+																							ignoreCase: false,
+																							want:       "\"{counter\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 659, col: 37, offset: 20899},
+																							label: "hidden",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 659, col: 44, offset: 20906},
+																								expr: &litMatcher{
+																									pos:        position{line: 659, col: 45, offset: 20907},
+																									val:        "2",
+																									ignoreCase: false,
+																									want:       "\"2\"",
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 659, col: 51, offset: 20913},
+																							val:        ":",
+																							ignoreCase: false,
+																							want:       "\":\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 659, col: 55, offset: 20917},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
@@ -12531,8 +12369,64 @@ var g = &grammar{
 																								},
 																							},
 																						},
+																						&labeledExpr{
+																							pos:   position{line: 659, col: 74, offset: 20936},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 659, col: 80, offset: 20942},
+																								expr: &actionExpr{
+																									pos: position{line: 666, col: 17, offset: 21167},
+																									run: (*parser).callonBlockAttributes177,
+																									expr: &seqExpr{
+																										pos: position{line: 666, col: 17, offset: 21167},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 666, col: 17, offset: 21167},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 666, col: 21, offset: 21171},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 666, col: 28, offset: 21178},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 666, col: 28, offset: 21178},
+																															run: (*parser).callonBlockAttributes182,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 666, col: 28, offset: 21178},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 668, col: 9, offset: 21232},
+																															run: (*parser).callonBlockAttributes184,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 668, col: 9, offset: 21232},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 668, col: 9, offset: 21232},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20654},
+																							pos:        position{line: 659, col: 96, offset: 20958},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12542,7 +12436,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2814, col: 12, offset: 89286},
-																				run: (*parser).callonBlockAttributes176,
+																				run: (*parser).callonBlockAttributes188,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2814, col: 12, offset: 89286},
 																					val:        "[^\\r\\n]",
@@ -12563,7 +12457,7 @@ var g = &grammar{
 												pos: position{line: 376, col: 35, offset: 11686},
 												expr: &actionExpr{
 													pos: position{line: 2875, col: 10, offset: 90978},
-													run: (*parser).callonBlockAttributes179,
+													run: (*parser).callonBlockAttributes191,
 													expr: &charClassMatcher{
 														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
@@ -12578,7 +12472,7 @@ var g = &grammar{
 												alternatives: []interface{}{
 													&actionExpr{
 														pos: position{line: 2884, col: 12, offset: 91149},
-														run: (*parser).callonBlockAttributes182,
+														run: (*parser).callonBlockAttributes194,
 														expr: &choiceExpr{
 															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
@@ -12615,7 +12509,7 @@ var g = &grammar{
 												pos: position{line: 376, col: 46, offset: 11697},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21533},
-													run: (*parser).callonBlockAttributes190,
+													run: (*parser).callonBlockAttributes202,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
@@ -12629,7 +12523,7 @@ var g = &grammar{
 																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
 																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonBlockAttributes195,
+																	run: (*parser).callonBlockAttributes207,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
@@ -12644,7 +12538,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonBlockAttributes198,
+																		run: (*parser).callonBlockAttributes210,
 																		expr: &choiceExpr{
 																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
@@ -12686,7 +12580,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 380, col: 12, offset: 11787},
-									run: (*parser).callonBlockAttributes205,
+									run: (*parser).callonBlockAttributes217,
 									expr: &seqExpr{
 										pos: position{line: 380, col: 12, offset: 11787},
 										exprs: []interface{}{
@@ -12702,7 +12596,7 @@ var g = &grammar{
 												pos: position{line: 380, col: 44, offset: 11819},
 												expr: &actionExpr{
 													pos: position{line: 2875, col: 10, offset: 90978},
-													run: (*parser).callonBlockAttributes210,
+													run: (*parser).callonBlockAttributes222,
 													expr: &charClassMatcher{
 														pos:        position{line: 2875, col: 10, offset: 90978},
 														val:        "[\\t ]",
@@ -12717,7 +12611,7 @@ var g = &grammar{
 												alternatives: []interface{}{
 													&actionExpr{
 														pos: position{line: 2884, col: 12, offset: 91149},
-														run: (*parser).callonBlockAttributes213,
+														run: (*parser).callonBlockAttributes225,
 														expr: &choiceExpr{
 															pos: position{line: 2884, col: 13, offset: 91150},
 															alternatives: []interface{}{
@@ -12754,7 +12648,7 @@ var g = &grammar{
 												pos: position{line: 380, col: 55, offset: 11830},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21533},
-													run: (*parser).callonBlockAttributes221,
+													run: (*parser).callonBlockAttributes233,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21533},
 														exprs: []interface{}{
@@ -12768,7 +12662,7 @@ var g = &grammar{
 																pos: position{line: 677, col: 21, offset: 21540},
 																expr: &actionExpr{
 																	pos: position{line: 2875, col: 10, offset: 90978},
-																	run: (*parser).callonBlockAttributes226,
+																	run: (*parser).callonBlockAttributes238,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2875, col: 10, offset: 90978},
 																		val:        "[\\t ]",
@@ -12783,7 +12677,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2884, col: 12, offset: 91149},
-																		run: (*parser).callonBlockAttributes229,
+																		run: (*parser).callonBlockAttributes241,
 																		expr: &choiceExpr{
 																			pos: position{line: 2884, col: 13, offset: 91150},
 																			alternatives: []interface{}{
@@ -12898,62 +12792,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13488},
+			pos:  position{line: 437, col: 1, offset: 13492},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13514},
+				pos: position{line: 438, col: 5, offset: 13518},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13514},
+					pos: position{line: 438, col: 5, offset: 13518},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13514},
+							pos: position{line: 438, col: 5, offset: 13518},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13515},
+								pos:        position{line: 438, col: 6, offset: 13519},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13519},
+							pos:        position{line: 438, col: 10, offset: 13523},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13523},
+							pos: position{line: 438, col: 14, offset: 13527},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13524},
+								pos:        position{line: 438, col: 15, offset: 13528},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13637},
+							pos:   position{line: 439, col: 5, offset: 13641},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13663},
+								pos: position{line: 439, col: 31, offset: 13667},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13664},
+									pos:  position{line: 439, col: 32, offset: 13668},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13696},
+							pos:   position{line: 440, col: 5, offset: 13700},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13712},
+								pos: position{line: 440, col: 21, offset: 13716},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13713},
+									pos: position{line: 440, col: 22, offset: 13717},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13713},
+											pos:  position{line: 440, col: 22, offset: 13717},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13735},
+											pos:  position{line: 440, col: 44, offset: 13739},
 											name: "NamedAttribute",
 										},
 									},
@@ -12961,7 +12855,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13756},
+							pos:        position{line: 441, col: 5, offset: 13760},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12972,69 +12866,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14284},
+			pos:  position{line: 454, col: 1, offset: 14288},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14318},
+				pos: position{line: 455, col: 5, offset: 14322},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14318},
+					pos: position{line: 455, col: 5, offset: 14322},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14318},
+							pos:   position{line: 455, col: 5, offset: 14322},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14323},
+								pos: position{line: 455, col: 10, offset: 14327},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14333},
+									pos:  position{line: 456, col: 9, offset: 14337},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14363},
+							pos:   position{line: 458, col: 5, offset: 14367},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14370},
+								pos: position{line: 458, col: 12, offset: 14374},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14381},
+									pos: position{line: 459, col: 9, offset: 14385},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14381},
+										pos: position{line: 459, col: 9, offset: 14385},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14381},
+												pos: position{line: 459, col: 9, offset: 14385},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14382},
+													pos:        position{line: 459, col: 10, offset: 14386},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14386},
+												pos: position{line: 459, col: 14, offset: 14390},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14387},
+													pos:        position{line: 459, col: 15, offset: 14391},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14399},
+												pos:   position{line: 460, col: 9, offset: 14403},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14419},
+													pos: position{line: 461, col: 13, offset: 14423},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14419},
+															pos:  position{line: 461, col: 13, offset: 14423},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14455},
+															pos:  position{line: 462, col: 15, offset: 14459},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14494},
+															pos:  position{line: 463, col: 15, offset: 14498},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13046,18 +12940,18 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14570},
+							pos: position{line: 466, col: 8, offset: 14574},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14571},
+								pos: position{line: 466, col: 9, offset: 14575},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14571},
+										pos:        position{line: 466, col: 9, offset: 14575},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14575},
+										pos: position{line: 466, col: 13, offset: 14579},
 										expr: &actionExpr{
 											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonFirstPositionalAttributes23,
@@ -13074,7 +12968,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14589},
+							pos: position{line: 467, col: 5, offset: 14593},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -13083,24 +12977,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 15005},
+			pos:  position{line: 483, col: 1, offset: 15009},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 15029},
+				pos: position{line: 483, col: 25, offset: 15033},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 15029},
+					pos: position{line: 483, col: 25, offset: 15033},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 15029},
+							pos:        position{line: 483, col: 25, offset: 15033},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 15033},
+							pos:   position{line: 483, col: 29, offset: 15037},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 15037},
+								pos:  position{line: 483, col: 33, offset: 15041},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13110,15 +13004,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15111},
+			pos:  position{line: 487, col: 1, offset: 15115},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15133},
+				pos: position{line: 487, col: 23, offset: 15137},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15133},
+					pos:   position{line: 487, col: 23, offset: 15137},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15140},
+						pos:  position{line: 487, col: 30, offset: 15144},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -13126,24 +13020,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15266},
+			pos:  position{line: 492, col: 1, offset: 15270},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15295},
+				pos: position{line: 492, col: 30, offset: 15299},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15295},
+					pos: position{line: 492, col: 30, offset: 15299},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15295},
+							pos:        position{line: 492, col: 30, offset: 15299},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15299},
+							pos:   position{line: 492, col: 34, offset: 15303},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15305},
+								pos:  position{line: 492, col: 40, offset: 15309},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13153,24 +13047,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15427},
+			pos:  position{line: 497, col: 1, offset: 15431},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15455},
+				pos: position{line: 497, col: 29, offset: 15459},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15455},
+					pos: position{line: 497, col: 29, offset: 15459},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15455},
+							pos:        position{line: 497, col: 29, offset: 15459},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15459},
+							pos:   position{line: 497, col: 33, offset: 15463},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15467},
+								pos:  position{line: 497, col: 41, offset: 15471},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13180,43 +13074,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15580},
+			pos:  position{line: 502, col: 1, offset: 15584},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15612},
+				pos: position{line: 503, col: 5, offset: 15616},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15612},
+						pos:  position{line: 503, col: 5, offset: 15616},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15646},
+						pos:  position{line: 504, col: 7, offset: 15650},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15680},
+						pos: position{line: 505, col: 7, offset: 15684},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15680},
+							pos: position{line: 505, col: 7, offset: 15684},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15680},
+									pos:   position{line: 505, col: 7, offset: 15684},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15689},
+										pos: position{line: 505, col: 16, offset: 15693},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15871},
+											pos: position{line: 508, col: 9, offset: 15875},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15871},
+													pos:  position{line: 508, col: 9, offset: 15875},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15897},
+													pos: position{line: 509, col: 12, offset: 15901},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15897},
+														pos: position{line: 509, col: 12, offset: 15901},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15897},
+															pos:        position{line: 509, col: 12, offset: 15901},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13225,35 +13119,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20153},
+													pos: position{line: 636, col: 5, offset: 20157},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20153},
+														pos: position{line: 636, col: 5, offset: 20157},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20153},
+																pos: position{line: 636, col: 5, offset: 20157},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20225},
+																pos:   position{line: 639, col: 5, offset: 20229},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20234},
+																	pos: position{line: 639, col: 14, offset: 20238},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20363},
+																			pos: position{line: 645, col: 5, offset: 20367},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20363},
+																				pos: position{line: 645, col: 5, offset: 20367},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20363},
+																						pos:        position{line: 645, col: 5, offset: 20367},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20371},
+																						pos:   position{line: 645, col: 13, offset: 20375},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9780},
@@ -13285,7 +13179,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20390},
+																						pos:        position{line: 645, col: 32, offset: 20394},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13294,19 +13188,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20631},
+																			pos: position{line: 652, col: 5, offset: 20635},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20631},
+																				pos: position{line: 652, col: 5, offset: 20635},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20631},
+																						pos:        position{line: 652, col: 5, offset: 20635},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20635},
+																						pos:   position{line: 652, col: 9, offset: 20639},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9780},
@@ -13338,7 +13232,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20654},
+																						pos:        position{line: 652, col: 28, offset: 20658},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13347,132 +13241,51 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20835},
+																			pos: position{line: 659, col: 21, offset: 20883},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20835},
+																				pos: position{line: 659, col: 21, offset: 20883},
 																				exprs: []interface{}{
+																					&zeroOrOneExpr{
+																						pos: position{line: 659, col: 21, offset: 20883},
+																						expr: &litMatcher{
+																							pos:        position{line: 659, col: 21, offset: 20883},
+																							val:        "\\",
+																							ignoreCase: false,
+																							want:       "\"\\\\\"",
+																						},
+																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20835},
-																						val:        "{counter:",
+																						pos:        position{line: 659, col: 26, offset: 20888},
+																						val:        "{counter",
 																						ignoreCase: false,
-																						want:       "\"{counter:\"",
+																						want:       "\"{counter\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20847},
-																						label: "name",
-																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9780},
-																							run: (*parser).callonShortHandAttributeValue42,
-																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9780},
-																								exprs: []interface{}{
-																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9780},
-																										val:        "[_\\pL\\pN]",
-																										chars:      []rune{'_'},
-																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9790},
-																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 28, offset: 9790},
-																											val:        "[_-\\pL\\pN]",
-																											chars:      []rune{'_', '-'},
-																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
-																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20866},
-																						label: "start",
+																						pos:   position{line: 659, col: 37, offset: 20899},
+																						label: "hidden",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20872},
-																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21167},
-																								run: (*parser).callonShortHandAttributeValue49,
-																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21167},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21167},
-																											val:        ":",
-																											ignoreCase: false,
-																											want:       "\":\"",
-																										},
-																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21171},
-																											label: "start",
-																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21178},
-																												alternatives: []interface{}{
-																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21178},
-																														run: (*parser).callonShortHandAttributeValue54,
-																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21178},
-																															val:        "[A-Za-z]",
-																															ranges:     []rune{'A', 'Z', 'a', 'z'},
-																															ignoreCase: false,
-																															inverted:   false,
-																														},
-																													},
-																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21232},
-																														run: (*parser).callonShortHandAttributeValue56,
-																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21232},
-																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21232},
-																																val:        "[0-9]",
-																																ranges:     []rune{'0', '9'},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																														},
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
+																							pos: position{line: 659, col: 44, offset: 20906},
+																							expr: &litMatcher{
+																								pos:        position{line: 659, col: 45, offset: 20907},
+																								val:        "2",
+																								ignoreCase: false,
+																								want:       "\"2\"",
 																							},
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20888},
-																						val:        "}",
-																						ignoreCase: false,
-																						want:       "\"}\"",
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 21006},
-																			run: (*parser).callonShortHandAttributeValue60,
-																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 21006},
-																				exprs: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 21006},
-																						val:        "{counter2:",
+																						pos:        position{line: 659, col: 51, offset: 20913},
+																						val:        ":",
 																						ignoreCase: false,
-																						want:       "\"{counter2:\"",
+																						want:       "\":\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 21019},
+																						pos:   position{line: 659, col: 55, offset: 20917},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9780},
-																							run: (*parser).callonShortHandAttributeValue64,
+																							run: (*parser).callonShortHandAttributeValue48,
 																							expr: &seqExpr{
 																								pos: position{line: 318, col: 18, offset: 9780},
 																								exprs: []interface{}{
@@ -13500,13 +13313,13 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 21038},
+																						pos:   position{line: 659, col: 74, offset: 20936},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21044},
+																							pos: position{line: 659, col: 80, offset: 20942},
 																							expr: &actionExpr{
 																								pos: position{line: 666, col: 17, offset: 21167},
-																								run: (*parser).callonShortHandAttributeValue71,
+																								run: (*parser).callonShortHandAttributeValue55,
 																								expr: &seqExpr{
 																									pos: position{line: 666, col: 17, offset: 21167},
 																									exprs: []interface{}{
@@ -13524,7 +13337,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 666, col: 28, offset: 21178},
-																														run: (*parser).callonShortHandAttributeValue76,
+																														run: (*parser).callonShortHandAttributeValue60,
 																														expr: &charClassMatcher{
 																															pos:        position{line: 666, col: 28, offset: 21178},
 																															val:        "[A-Za-z]",
@@ -13535,7 +13348,7 @@ var g = &grammar{
 																													},
 																													&actionExpr{
 																														pos: position{line: 668, col: 9, offset: 21232},
-																														run: (*parser).callonShortHandAttributeValue78,
+																														run: (*parser).callonShortHandAttributeValue62,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 668, col: 9, offset: 21232},
 																															expr: &charClassMatcher{
@@ -13556,7 +13369,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21060},
+																						pos:        position{line: 659, col: 96, offset: 20958},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13571,10 +13384,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16065},
-													run: (*parser).callonShortHandAttributeValue82,
+													pos: position{line: 514, col: 12, offset: 16069},
+													run: (*parser).callonShortHandAttributeValue66,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16065},
+														pos:        position{line: 514, col: 12, offset: 16069},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13585,17 +13398,17 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16153},
+									pos: position{line: 518, col: 5, offset: 16157},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16155},
+										pos: position{line: 518, col: 7, offset: 16159},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16157},
+											pos: position{line: 518, col: 9, offset: 16161},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16157},
+													pos: position{line: 518, col: 9, offset: 16161},
 													expr: &actionExpr{
 														pos: position{line: 2875, col: 10, offset: 90978},
-														run: (*parser).callonShortHandAttributeValue88,
+														run: (*parser).callonShortHandAttributeValue72,
 														expr: &charClassMatcher{
 															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
@@ -13606,7 +13419,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16164},
+													pos:        position{line: 518, col: 16, offset: 16168},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13623,40 +13436,40 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16242},
+			pos:  position{line: 523, col: 1, offset: 16246},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16265},
+				pos: position{line: 523, col: 24, offset: 16269},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16271},
+						pos: position{line: 524, col: 5, offset: 16275},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16271},
+							pos: position{line: 524, col: 5, offset: 16275},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16271},
+									pos:   position{line: 524, col: 5, offset: 16275},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16278},
+										pos:  position{line: 524, col: 12, offset: 16282},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16295},
+									pos: position{line: 524, col: 29, offset: 16299},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16295},
+											pos: position{line: 524, col: 29, offset: 16299},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16296},
+												pos: position{line: 524, col: 30, offset: 16300},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16296},
+														pos:        position{line: 524, col: 30, offset: 16300},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16300},
+														pos: position{line: 524, col: 34, offset: 16304},
 														expr: &actionExpr{
 															pos: position{line: 2875, col: 10, offset: 90978},
 															run: (*parser).callonPositionalAttribute11,
@@ -13673,9 +13486,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16311},
+											pos: position{line: 524, col: 45, offset: 16315},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16312},
+												pos:        position{line: 524, col: 46, offset: 16316},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13687,19 +13500,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16457},
+						pos: position{line: 529, col: 6, offset: 16461},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16457},
+							pos: position{line: 529, col: 6, offset: 16461},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16457},
+									pos:   position{line: 529, col: 6, offset: 16461},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16464},
+										pos: position{line: 529, col: 13, offset: 16468},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16464},
+												pos: position{line: 529, col: 13, offset: 16468},
 												expr: &actionExpr{
 													pos: position{line: 2875, col: 10, offset: 90978},
 													run: (*parser).callonPositionalAttribute20,
@@ -13713,19 +13526,19 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16472},
+												pos: position{line: 529, col: 21, offset: 16476},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16473},
+														pos: position{line: 529, col: 22, offset: 16477},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16473},
+																pos:        position{line: 529, col: 22, offset: 16477},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16477},
+																pos: position{line: 529, col: 26, offset: 16481},
 																expr: &actionExpr{
 																	pos: position{line: 2875, col: 10, offset: 90978},
 																	run: (*parser).callonPositionalAttribute26,
@@ -13741,9 +13554,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16487},
+														pos: position{line: 529, col: 36, offset: 16491},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16488},
+															pos:        position{line: 529, col: 37, offset: 16492},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13755,7 +13568,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16498},
+									pos: position{line: 530, col: 5, offset: 16502},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13766,24 +13579,24 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16813},
+			pos:  position{line: 540, col: 1, offset: 16817},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16836},
+				pos: position{line: 541, col: 5, offset: 16840},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16836},
+					pos: position{line: 541, col: 5, offset: 16840},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16836},
+							pos:   position{line: 541, col: 5, offset: 16840},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17124},
+								pos: position{line: 549, col: 22, offset: 17128},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17124},
+									pos: position{line: 549, col: 22, offset: 17128},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17124},
+											pos: position{line: 549, col: 22, offset: 17128},
 											expr: &actionExpr{
 												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonNamedAttribute7,
@@ -13797,9 +13610,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17131},
+											pos: position{line: 549, col: 29, offset: 17135},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17131},
+												pos:        position{line: 549, col: 29, offset: 17135},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13811,13 +13624,13 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16865},
+							pos:        position{line: 542, col: 5, offset: 16869},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16869},
+							pos: position{line: 542, col: 9, offset: 16873},
 							expr: &actionExpr{
 								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonNamedAttribute13,
@@ -13831,26 +13644,26 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16881},
+							pos:   position{line: 543, col: 5, offset: 16885},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16888},
+								pos:  position{line: 543, col: 12, offset: 16892},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16904},
+							pos: position{line: 543, col: 28, offset: 16908},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16905},
+								pos: position{line: 543, col: 29, offset: 16909},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16905},
+										pos:        position{line: 543, col: 29, offset: 16909},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16909},
+										pos: position{line: 543, col: 33, offset: 16913},
 										expr: &actionExpr{
 											pos: position{line: 2875, col: 10, offset: 90978},
 											run: (*parser).callonNamedAttribute21,
@@ -13872,43 +13685,43 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17188},
+			pos:  position{line: 553, col: 1, offset: 17192},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17211},
+				pos: position{line: 554, col: 5, offset: 17215},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17211},
+					pos: position{line: 554, col: 5, offset: 17215},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17211},
+							pos:   position{line: 554, col: 5, offset: 17215},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17227},
+								pos: position{line: 555, col: 9, offset: 17231},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17227},
+										pos:  position{line: 555, col: 9, offset: 17231},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17265},
+										pos:  position{line: 556, col: 11, offset: 17269},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17303},
+										pos:  position{line: 557, col: 11, offset: 17307},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17337},
+							pos: position{line: 559, col: 5, offset: 17341},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17339},
+								pos: position{line: 559, col: 7, offset: 17343},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17341},
+									pos: position{line: 559, col: 9, offset: 17345},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17341},
+											pos: position{line: 559, col: 9, offset: 17345},
 											expr: &actionExpr{
 												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonAttributeValue12,
@@ -13922,7 +13735,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17348},
+											pos:        position{line: 559, col: 16, offset: 17352},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13937,38 +13750,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17389},
+			pos:  position{line: 563, col: 1, offset: 17393},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17424},
+				pos: position{line: 564, col: 5, offset: 17428},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17424},
+					pos: position{line: 564, col: 5, offset: 17428},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17424},
+							pos:        position{line: 564, col: 5, offset: 17428},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17428},
+							pos: position{line: 564, col: 9, offset: 17432},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17429},
+								pos:        position{line: 564, col: 10, offset: 17433},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17508},
+							pos:   position{line: 565, col: 5, offset: 17512},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17517},
+								pos:  position{line: 565, col: 14, offset: 17521},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17556},
+							pos:        position{line: 566, col: 5, offset: 17560},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13979,17 +13792,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17597},
+			pos:  position{line: 570, col: 1, offset: 17601},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17639},
+				pos: position{line: 571, col: 5, offset: 17643},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17639},
+					pos:   position{line: 571, col: 5, offset: 17643},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17648},
+						pos: position{line: 571, col: 14, offset: 17652},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17658},
+							pos: position{line: 572, col: 9, offset: 17662},
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2769, col: 14, offset: 88147},
@@ -14017,39 +13830,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17694},
+									pos:  position{line: 574, col: 11, offset: 17698},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20153},
+									pos: position{line: 636, col: 5, offset: 20157},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20153},
+										pos: position{line: 636, col: 5, offset: 20157},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20153},
+												pos: position{line: 636, col: 5, offset: 20157},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20225},
+												pos:   position{line: 639, col: 5, offset: 20229},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20234},
+													pos: position{line: 639, col: 14, offset: 20238},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20363},
+															pos: position{line: 645, col: 5, offset: 20367},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20363},
+																pos: position{line: 645, col: 5, offset: 20367},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20363},
+																		pos:        position{line: 645, col: 5, offset: 20367},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20371},
+																		pos:   position{line: 645, col: 13, offset: 20375},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9780},
@@ -14081,7 +13894,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20390},
+																		pos:        position{line: 645, col: 32, offset: 20394},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14090,19 +13903,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20631},
+															pos: position{line: 652, col: 5, offset: 20635},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20631},
+																pos: position{line: 652, col: 5, offset: 20635},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20631},
+																		pos:        position{line: 652, col: 5, offset: 20635},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20635},
+																		pos:   position{line: 652, col: 9, offset: 20639},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9780},
@@ -14134,7 +13947,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20654},
+																		pos:        position{line: 652, col: 28, offset: 20658},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14143,132 +13956,51 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20835},
+															pos: position{line: 659, col: 21, offset: 20883},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20835},
+																pos: position{line: 659, col: 21, offset: 20883},
 																exprs: []interface{}{
+																	&zeroOrOneExpr{
+																		pos: position{line: 659, col: 21, offset: 20883},
+																		expr: &litMatcher{
+																			pos:        position{line: 659, col: 21, offset: 20883},
+																			val:        "\\",
+																			ignoreCase: false,
+																			want:       "\"\\\\\"",
+																		},
+																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20835},
-																		val:        "{counter:",
+																		pos:        position{line: 659, col: 26, offset: 20888},
+																		val:        "{counter",
 																		ignoreCase: false,
-																		want:       "\"{counter:\"",
-																	},
-																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20847},
-																		label: "name",
-																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9780},
-																			run: (*parser).callonSingleQuotedAttributeValueContent40,
-																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9780},
-																				exprs: []interface{}{
-																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9780},
-																						val:        "[_\\pL\\pN]",
-																						chars:      []rune{'_'},
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9790},
-																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 28, offset: 9790},
-																							val:        "[_-\\pL\\pN]",
-																							chars:      []rune{'_', '-'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																					},
-																				},
-																			},
-																		},
+																		want:       "\"{counter\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20866},
-																		label: "start",
+																		pos:   position{line: 659, col: 37, offset: 20899},
+																		label: "hidden",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20872},
-																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21167},
-																				run: (*parser).callonSingleQuotedAttributeValueContent47,
-																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21167},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21167},
-																							val:        ":",
-																							ignoreCase: false,
-																							want:       "\":\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21171},
-																							label: "start",
-																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21178},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21178},
-																										run: (*parser).callonSingleQuotedAttributeValueContent52,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21178},
-																											val:        "[A-Za-z]",
-																											ranges:     []rune{'A', 'Z', 'a', 'z'},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21232},
-																										run: (*parser).callonSingleQuotedAttributeValueContent54,
-																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21232},
-																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21232},
-																												val:        "[0-9]",
-																												ranges:     []rune{'0', '9'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
-																				},
+																			pos: position{line: 659, col: 44, offset: 20906},
+																			expr: &litMatcher{
+																				pos:        position{line: 659, col: 45, offset: 20907},
+																				val:        "2",
+																				ignoreCase: false,
+																				want:       "\"2\"",
 																			},
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20888},
-																		val:        "}",
-																		ignoreCase: false,
-																		want:       "\"}\"",
-																	},
-																},
-															},
-														},
-														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 21006},
-															run: (*parser).callonSingleQuotedAttributeValueContent58,
-															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 21006},
-																exprs: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 21006},
-																		val:        "{counter2:",
+																		pos:        position{line: 659, col: 51, offset: 20913},
+																		val:        ":",
 																		ignoreCase: false,
-																		want:       "\"{counter2:\"",
+																		want:       "\":\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 21019},
+																		pos:   position{line: 659, col: 55, offset: 20917},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9780},
-																			run: (*parser).callonSingleQuotedAttributeValueContent62,
+																			run: (*parser).callonSingleQuotedAttributeValueContent46,
 																			expr: &seqExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
@@ -14296,13 +14028,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21038},
+																		pos:   position{line: 659, col: 74, offset: 20936},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21044},
+																			pos: position{line: 659, col: 80, offset: 20942},
 																			expr: &actionExpr{
 																				pos: position{line: 666, col: 17, offset: 21167},
-																				run: (*parser).callonSingleQuotedAttributeValueContent69,
+																				run: (*parser).callonSingleQuotedAttributeValueContent53,
 																				expr: &seqExpr{
 																					pos: position{line: 666, col: 17, offset: 21167},
 																					exprs: []interface{}{
@@ -14320,7 +14052,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 666, col: 28, offset: 21178},
-																										run: (*parser).callonSingleQuotedAttributeValueContent74,
+																										run: (*parser).callonSingleQuotedAttributeValueContent58,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 666, col: 28, offset: 21178},
 																											val:        "[A-Za-z]",
@@ -14331,7 +14063,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 668, col: 9, offset: 21232},
-																										run: (*parser).callonSingleQuotedAttributeValueContent76,
+																										run: (*parser).callonSingleQuotedAttributeValueContent60,
 																										expr: &oneOrMoreExpr{
 																											pos: position{line: 668, col: 9, offset: 21232},
 																											expr: &charClassMatcher{
@@ -14352,7 +14084,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21060},
+																		pos:        position{line: 659, col: 96, offset: 20958},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14367,44 +14099,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17748},
-									run: (*parser).callonSingleQuotedAttributeValueContent80,
+									pos: position{line: 576, col: 12, offset: 17752},
+									run: (*parser).callonSingleQuotedAttributeValueContent64,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17748},
+										pos:        position{line: 576, col: 12, offset: 17752},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17850},
+									pos:        position{line: 579, col: 13, offset: 17854},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17857},
+									pos:        position{line: 579, col: 20, offset: 17861},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17864},
-									run: (*parser).callonSingleQuotedAttributeValueContent84,
+									pos: position{line: 579, col: 27, offset: 17868},
+									run: (*parser).callonSingleQuotedAttributeValueContent68,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17864},
+										pos:        position{line: 579, col: 27, offset: 17868},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 18024},
-									run: (*parser).callonSingleQuotedAttributeValueContent86,
+									pos: position{line: 582, col: 12, offset: 18028},
+									run: (*parser).callonSingleQuotedAttributeValueContent70,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 18024},
+										pos: position{line: 582, col: 12, offset: 18028},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 18024},
+											pos:        position{line: 582, col: 12, offset: 18028},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14420,51 +14152,51 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18221},
+			pos:  position{line: 589, col: 1, offset: 18225},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18256},
+				pos: position{line: 590, col: 5, offset: 18260},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18256},
+					pos: position{line: 590, col: 5, offset: 18260},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18256},
+							pos:        position{line: 590, col: 5, offset: 18260},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18261},
+							pos: position{line: 590, col: 10, offset: 18265},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18262},
+								pos:        position{line: 590, col: 11, offset: 18266},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18341},
+							pos:   position{line: 591, col: 5, offset: 18345},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18350},
+								pos:  position{line: 591, col: 14, offset: 18354},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18389},
+							pos:        position{line: 592, col: 5, offset: 18393},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18394},
+							pos: position{line: 592, col: 10, offset: 18398},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18396},
+								pos: position{line: 592, col: 12, offset: 18400},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18398},
+									pos: position{line: 592, col: 14, offset: 18402},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18398},
+											pos: position{line: 592, col: 14, offset: 18402},
 											expr: &actionExpr{
 												pos: position{line: 2875, col: 10, offset: 90978},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
@@ -14478,7 +14210,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18405},
+											pos:        position{line: 592, col: 21, offset: 18409},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14493,17 +14225,17 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18448},
+			pos:  position{line: 596, col: 1, offset: 18452},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18490},
+				pos: position{line: 597, col: 5, offset: 18494},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18490},
+					pos:   position{line: 597, col: 5, offset: 18494},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18499},
+						pos: position{line: 597, col: 14, offset: 18503},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18509},
+							pos: position{line: 598, col: 9, offset: 18513},
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2769, col: 14, offset: 88147},
@@ -14531,39 +14263,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18545},
+									pos:  position{line: 600, col: 11, offset: 18549},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20153},
+									pos: position{line: 636, col: 5, offset: 20157},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20153},
+										pos: position{line: 636, col: 5, offset: 20157},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20153},
+												pos: position{line: 636, col: 5, offset: 20157},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20225},
+												pos:   position{line: 639, col: 5, offset: 20229},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20234},
+													pos: position{line: 639, col: 14, offset: 20238},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20363},
+															pos: position{line: 645, col: 5, offset: 20367},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20363},
+																pos: position{line: 645, col: 5, offset: 20367},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20363},
+																		pos:        position{line: 645, col: 5, offset: 20367},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20371},
+																		pos:   position{line: 645, col: 13, offset: 20375},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9780},
@@ -14595,7 +14327,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20390},
+																		pos:        position{line: 645, col: 32, offset: 20394},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14604,19 +14336,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20631},
+															pos: position{line: 652, col: 5, offset: 20635},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20631},
+																pos: position{line: 652, col: 5, offset: 20635},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20631},
+																		pos:        position{line: 652, col: 5, offset: 20635},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20635},
+																		pos:   position{line: 652, col: 9, offset: 20639},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9780},
@@ -14648,7 +14380,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20654},
+																		pos:        position{line: 652, col: 28, offset: 20658},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14657,132 +14389,51 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20835},
+															pos: position{line: 659, col: 21, offset: 20883},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20835},
+																pos: position{line: 659, col: 21, offset: 20883},
 																exprs: []interface{}{
+																	&zeroOrOneExpr{
+																		pos: position{line: 659, col: 21, offset: 20883},
+																		expr: &litMatcher{
+																			pos:        position{line: 659, col: 21, offset: 20883},
+																			val:        "\\",
+																			ignoreCase: false,
+																			want:       "\"\\\\\"",
+																		},
+																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20835},
-																		val:        "{counter:",
+																		pos:        position{line: 659, col: 26, offset: 20888},
+																		val:        "{counter",
 																		ignoreCase: false,
-																		want:       "\"{counter:\"",
-																	},
-																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20847},
-																		label: "name",
-																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9780},
-																			run: (*parser).callonDoubleQuotedAttributeValueContent40,
-																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9780},
-																				exprs: []interface{}{
-																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9780},
-																						val:        "[_\\pL\\pN]",
-																						chars:      []rune{'_'},
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9790},
-																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 28, offset: 9790},
-																							val:        "[_-\\pL\\pN]",
-																							chars:      []rune{'_', '-'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																					},
-																				},
-																			},
-																		},
+																		want:       "\"{counter\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20866},
-																		label: "start",
+																		pos:   position{line: 659, col: 37, offset: 20899},
+																		label: "hidden",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20872},
-																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21167},
-																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
-																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21167},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21167},
-																							val:        ":",
-																							ignoreCase: false,
-																							want:       "\":\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21171},
-																							label: "start",
-																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21178},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21178},
-																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21178},
-																											val:        "[A-Za-z]",
-																											ranges:     []rune{'A', 'Z', 'a', 'z'},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21232},
-																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
-																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21232},
-																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21232},
-																												val:        "[0-9]",
-																												ranges:     []rune{'0', '9'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
-																				},
+																			pos: position{line: 659, col: 44, offset: 20906},
+																			expr: &litMatcher{
+																				pos:        position{line: 659, col: 45, offset: 20907},
+																				val:        "2",
+																				ignoreCase: false,
+																				want:       "\"2\"",
 																			},
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20888},
-																		val:        "}",
-																		ignoreCase: false,
-																		want:       "\"}\"",
-																	},
-																},
-															},
-														},
-														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 21006},
-															run: (*parser).callonDoubleQuotedAttributeValueContent58,
-															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 21006},
-																exprs: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 21006},
-																		val:        "{counter2:",
+																		pos:        position{line: 659, col: 51, offset: 20913},
+																		val:        ":",
 																		ignoreCase: false,
-																		want:       "\"{counter2:\"",
+																		want:       "\":\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 21019},
+																		pos:   position{line: 659, col: 55, offset: 20917},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9780},
-																			run: (*parser).callonDoubleQuotedAttributeValueContent62,
+																			run: (*parser).callonDoubleQuotedAttributeValueContent46,
 																			expr: &seqExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
 																				exprs: []interface{}{
@@ -14810,13 +14461,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21038},
+																		pos:   position{line: 659, col: 74, offset: 20936},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21044},
+																			pos: position{line: 659, col: 80, offset: 20942},
 																			expr: &actionExpr{
 																				pos: position{line: 666, col: 17, offset: 21167},
-																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
+																				run: (*parser).callonDoubleQuotedAttributeValueContent53,
 																				expr: &seqExpr{
 																					pos: position{line: 666, col: 17, offset: 21167},
 																					exprs: []interface{}{
@@ -14834,7 +14485,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 666, col: 28, offset: 21178},
-																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
+																										run: (*parser).callonDoubleQuotedAttributeValueContent58,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 666, col: 28, offset: 21178},
 																											val:        "[A-Za-z]",
@@ -14845,7 +14496,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 668, col: 9, offset: 21232},
-																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
+																										run: (*parser).callonDoubleQuotedAttributeValueContent60,
 																										expr: &oneOrMoreExpr{
 																											pos: position{line: 668, col: 9, offset: 21232},
 																											expr: &charClassMatcher{
@@ -14866,7 +14517,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21060},
+																		pos:        position{line: 659, col: 96, offset: 20958},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14881,50 +14532,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18600},
-									run: (*parser).callonDoubleQuotedAttributeValueContent80,
+									pos: position{line: 602, col: 12, offset: 18604},
+									run: (*parser).callonDoubleQuotedAttributeValueContent64,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18600},
+										pos:        position{line: 602, col: 12, offset: 18604},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18702},
+									pos:        position{line: 605, col: 13, offset: 18706},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18710},
+									pos:        position{line: 605, col: 21, offset: 18714},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18718},
+									pos:        position{line: 605, col: 29, offset: 18722},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18724},
-									run: (*parser).callonDoubleQuotedAttributeValueContent85,
+									pos: position{line: 605, col: 35, offset: 18728},
+									run: (*parser).callonDoubleQuotedAttributeValueContent69,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18724},
+										pos:        position{line: 605, col: 35, offset: 18728},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18907},
-									run: (*parser).callonDoubleQuotedAttributeValueContent87,
+									pos: position{line: 608, col: 12, offset: 18911},
+									run: (*parser).callonDoubleQuotedAttributeValueContent71,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18907},
+										pos: position{line: 608, col: 12, offset: 18911},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18907},
+											pos:        position{line: 608, col: 12, offset: 18911},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14940,15 +14591,15 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19181},
+			pos:  position{line: 616, col: 1, offset: 19185},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19365},
+				pos: position{line: 619, col: 5, offset: 19369},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19365},
+					pos: position{line: 619, col: 5, offset: 19369},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19365},
+							pos: position{line: 619, col: 5, offset: 19369},
 							expr: &actionExpr{
 								pos: position{line: 2875, col: 10, offset: 90978},
 								run: (*parser).callonUnquotedAttributeValue4,
@@ -14962,28 +14613,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19434},
+							pos:   position{line: 620, col: 5, offset: 19438},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19443},
+								pos: position{line: 620, col: 14, offset: 19447},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19453},
+									pos: position{line: 621, col: 9, offset: 19457},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19454},
+											pos: position{line: 621, col: 10, offset: 19458},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19454},
+													pos:        position{line: 621, col: 10, offset: 19458},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19458},
+													pos:  position{line: 621, col: 14, offset: 19462},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19481},
+													pos:        position{line: 621, col: 37, offset: 19485},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14991,35 +14642,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20153},
+												pos: position{line: 636, col: 5, offset: 20157},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20153},
+														pos: position{line: 636, col: 5, offset: 20157},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20225},
+														pos:   position{line: 639, col: 5, offset: 20229},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20234},
+															pos: position{line: 639, col: 14, offset: 20238},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20363},
+																		pos: position{line: 645, col: 5, offset: 20367},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20363},
+																				pos:        position{line: 645, col: 5, offset: 20367},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20371},
+																				pos:   position{line: 645, col: 13, offset: 20375},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -15051,7 +14702,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20390},
+																				pos:        position{line: 645, col: 32, offset: 20394},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15060,19 +14711,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20631},
+																		pos: position{line: 652, col: 5, offset: 20635},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20631},
+																				pos:        position{line: 652, col: 5, offset: 20635},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20635},
+																				pos:   position{line: 652, col: 9, offset: 20639},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -15104,7 +14755,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20654},
+																				pos:        position{line: 652, col: 28, offset: 20658},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15113,132 +14764,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20835},
+																		pos: position{line: 659, col: 21, offset: 20883},
 																		exprs: []interface{}{
+																			&zeroOrOneExpr{
+																				pos: position{line: 659, col: 21, offset: 20883},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 21, offset: 20883},
+																					val:        "\\",
+																					ignoreCase: false,
+																					want:       "\"\\\\\"",
+																				},
+																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20835},
-																				val:        "{counter:",
+																				pos:        position{line: 659, col: 26, offset: 20888},
+																				val:        "{counter",
 																				ignoreCase: false,
-																				want:       "\"{counter:\"",
+																				want:       "\"{counter\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20847},
-																				label: "name",
-																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonUnquotedAttributeValue42,
-																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9780},
-																						exprs: []interface{}{
-																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9780},
-																								val:        "[_\\pL\\pN]",
-																								chars:      []rune{'_'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9790},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 28, offset: 9790},
-																									val:        "[_-\\pL\\pN]",
-																									chars:      []rune{'_', '-'},
-																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20866},
-																				label: "start",
+																				pos:   position{line: 659, col: 37, offset: 20899},
+																				label: "hidden",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20872},
-																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonUnquotedAttributeValue49,
-																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21167},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21167},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21171},
-																									label: "start",
-																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21178},
-																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonUnquotedAttributeValue54,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21178},
-																													val:        "[A-Za-z]",
-																													ranges:     []rune{'A', 'Z', 'a', 'z'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonUnquotedAttributeValue56,
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21232},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21232},
-																														val:        "[0-9]",
-																														ranges:     []rune{'0', '9'},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
+																					pos: position{line: 659, col: 44, offset: 20906},
+																					expr: &litMatcher{
+																						pos:        position{line: 659, col: 45, offset: 20907},
+																						val:        "2",
+																						ignoreCase: false,
+																						want:       "\"2\"",
 																					},
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20888},
-																				val:        "}",
-																				ignoreCase: false,
-																				want:       "\"}\"",
-																			},
-																		},
-																	},
-																},
-																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	run: (*parser).callonUnquotedAttributeValue60,
-																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21006},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21006},
-																				val:        "{counter2:",
+																				pos:        position{line: 659, col: 51, offset: 20913},
+																				val:        ":",
 																				ignoreCase: false,
-																				want:       "\"{counter2:\"",
+																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21019},
+																				pos:   position{line: 659, col: 55, offset: 20917},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonUnquotedAttributeValue64,
+																					run: (*parser).callonUnquotedAttributeValue48,
 																					expr: &seqExpr{
 																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
@@ -15266,13 +14836,13 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21038},
+																				pos:   position{line: 659, col: 74, offset: 20936},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21044},
+																					pos: position{line: 659, col: 80, offset: 20942},
 																					expr: &actionExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonUnquotedAttributeValue71,
+																						run: (*parser).callonUnquotedAttributeValue55,
 																						expr: &seqExpr{
 																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
@@ -15290,7 +14860,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonUnquotedAttributeValue76,
+																												run: (*parser).callonUnquotedAttributeValue60,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
@@ -15301,7 +14871,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonUnquotedAttributeValue78,
+																												run: (*parser).callonUnquotedAttributeValue62,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
@@ -15322,7 +14892,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21060},
+																				pos:        position{line: 659, col: 96, offset: 20958},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15337,14 +14907,14 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19568},
+											pos:        position{line: 622, col: 32, offset: 19572},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
 											pos: position{line: 2875, col: 10, offset: 90978},
-											run: (*parser).callonUnquotedAttributeValue83,
+											run: (*parser).callonUnquotedAttributeValue67,
 											expr: &charClassMatcher{
 												pos:        position{line: 2875, col: 10, offset: 90978},
 												val:        "[\\t ]",
@@ -15354,12 +14924,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19653},
-											run: (*parser).callonUnquotedAttributeValue85,
+											pos: position{line: 624, col: 12, offset: 19657},
+											run: (*parser).callonUnquotedAttributeValue69,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19653},
+												pos: position{line: 624, col: 12, offset: 19657},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19653},
+													pos:        position{line: 624, col: 12, offset: 19657},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15466,19 +15036,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20363},
+													pos: position{line: 645, col: 5, offset: 20367},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20363},
+														pos: position{line: 645, col: 5, offset: 20367},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20363},
+																pos:        position{line: 645, col: 5, offset: 20367},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20371},
+																pos:   position{line: 645, col: 13, offset: 20375},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9780},
@@ -15510,7 +15080,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20390},
+																pos:        position{line: 645, col: 32, offset: 20394},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15519,19 +15089,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20631},
+													pos: position{line: 652, col: 5, offset: 20635},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20631},
+														pos: position{line: 652, col: 5, offset: 20635},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20631},
+																pos:        position{line: 652, col: 5, offset: 20635},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20635},
+																pos:   position{line: 652, col: 9, offset: 20639},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9780},
@@ -15563,7 +15133,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20654},
+																pos:        position{line: 652, col: 28, offset: 20658},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15747,35 +15317,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20153},
+															pos: position{line: 636, col: 5, offset: 20157},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20153},
+																pos: position{line: 636, col: 5, offset: 20157},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20153},
+																		pos: position{line: 636, col: 5, offset: 20157},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20225},
+																		pos:   position{line: 639, col: 5, offset: 20229},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20234},
+																			pos: position{line: 639, col: 14, offset: 20238},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20363},
+																					pos: position{line: 645, col: 5, offset: 20367},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20363},
+																						pos: position{line: 645, col: 5, offset: 20367},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20363},
+																								pos:        position{line: 645, col: 5, offset: 20367},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20371},
+																								pos:   position{line: 645, col: 13, offset: 20375},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
@@ -15807,7 +15377,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20390},
+																								pos:        position{line: 645, col: 32, offset: 20394},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15816,19 +15386,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20631},
+																					pos: position{line: 652, col: 5, offset: 20635},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20631},
+																						pos: position{line: 652, col: 5, offset: 20635},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20631},
+																								pos:        position{line: 652, col: 5, offset: 20635},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20635},
+																								pos:   position{line: 652, col: 9, offset: 20639},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
@@ -15860,7 +15430,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20654},
+																								pos:        position{line: 652, col: 28, offset: 20658},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15869,132 +15439,51 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20835},
+																					pos: position{line: 659, col: 21, offset: 20883},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20835},
+																						pos: position{line: 659, col: 21, offset: 20883},
 																						exprs: []interface{}{
+																							&zeroOrOneExpr{
+																								pos: position{line: 659, col: 21, offset: 20883},
+																								expr: &litMatcher{
+																									pos:        position{line: 659, col: 21, offset: 20883},
+																									val:        "\\",
+																									ignoreCase: false,
+																									want:       "\"\\\\\"",
+																								},
+																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20835},
-																								val:        "{counter:",
+																								pos:        position{line: 659, col: 26, offset: 20888},
+																								val:        "{counter",
 																								ignoreCase: false,
-																								want:       "\"{counter:\"",
+																								want:       "\"{counter\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20847},
-																								label: "name",
-																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9780},
-																									run: (*parser).callonExternalCrossReference56,
-																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9780},
-																										exprs: []interface{}{
-																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9780},
-																												val:        "[_\\pL\\pN]",
-																												chars:      []rune{'_'},
-																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9790},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 28, offset: 9790},
-																													val:        "[_-\\pL\\pN]",
-																													chars:      []rune{'_', '-'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20866},
-																								label: "start",
+																								pos:   position{line: 659, col: 37, offset: 20899},
+																								label: "hidden",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20872},
-																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21167},
-																										run: (*parser).callonExternalCrossReference63,
-																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21167},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21167},
-																													val:        ":",
-																													ignoreCase: false,
-																													want:       "\":\"",
-																												},
-																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21171},
-																													label: "start",
-																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21178},
-																														alternatives: []interface{}{
-																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21178},
-																																run: (*parser).callonExternalCrossReference68,
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21178},
-																																	val:        "[A-Za-z]",
-																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21232},
-																																run: (*parser).callonExternalCrossReference70,
-																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21232},
-																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21232},
-																																		val:        "[0-9]",
-																																		ranges:     []rune{'0', '9'},
-																																		ignoreCase: false,
-																																		inverted:   false,
-																																	},
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																										},
+																									pos: position{line: 659, col: 44, offset: 20906},
+																									expr: &litMatcher{
+																										pos:        position{line: 659, col: 45, offset: 20907},
+																										val:        "2",
+																										ignoreCase: false,
+																										want:       "\"2\"",
 																									},
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20888},
-																								val:        "}",
-																								ignoreCase: false,
-																								want:       "\"}\"",
-																							},
-																						},
-																					},
-																				},
-																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 21006},
-																					run: (*parser).callonExternalCrossReference74,
-																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 21006},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 21006},
-																								val:        "{counter2:",
+																								pos:        position{line: 659, col: 51, offset: 20913},
+																								val:        ":",
 																								ignoreCase: false,
-																								want:       "\"{counter2:\"",
+																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 21019},
+																								pos:   position{line: 659, col: 55, offset: 20917},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
-																									run: (*parser).callonExternalCrossReference78,
+																									run: (*parser).callonExternalCrossReference62,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
@@ -16022,13 +15511,13 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21038},
+																								pos:   position{line: 659, col: 74, offset: 20936},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21044},
+																									pos: position{line: 659, col: 80, offset: 20942},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21167},
-																										run: (*parser).callonExternalCrossReference85,
+																										run: (*parser).callonExternalCrossReference69,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21167},
 																											exprs: []interface{}{
@@ -16046,7 +15535,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21178},
-																																run: (*parser).callonExternalCrossReference90,
+																																run: (*parser).callonExternalCrossReference74,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21178},
 																																	val:        "[A-Za-z]",
@@ -16057,7 +15546,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21232},
-																																run: (*parser).callonExternalCrossReference92,
+																																run: (*parser).callonExternalCrossReference76,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21232},
 																																	expr: &charClassMatcher{
@@ -16078,7 +15567,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21060},
+																								pos:        position{line: 659, col: 96, offset: 20958},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16094,7 +15583,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1198, col: 23, offset: 37016},
-															run: (*parser).callonExternalCrossReference96,
+															run: (*parser).callonExternalCrossReference80,
 															expr: &seqExpr{
 																pos: position{line: 1198, col: 23, offset: 37016},
 																exprs: []interface{}{
@@ -16109,7 +15598,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1198, col: 56, offset: 37049},
-																			run: (*parser).callonExternalCrossReference100,
+																			run: (*parser).callonExternalCrossReference84,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1198, col: 56, offset: 37049},
 																				expr: &charClassMatcher{
@@ -16133,7 +15622,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2854, col: 11, offset: 90493},
-															run: (*parser).callonExternalCrossReference104,
+															run: (*parser).callonExternalCrossReference88,
 															expr: &litMatcher{
 																pos:        position{line: 2854, col: 11, offset: 90493},
 																val:        "{",
@@ -19775,35 +19264,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20153},
+																	pos: position{line: 636, col: 5, offset: 20157},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20153},
+																		pos: position{line: 636, col: 5, offset: 20157},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20225},
+																				pos:   position{line: 639, col: 5, offset: 20229},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20234},
+																					pos: position{line: 639, col: 14, offset: 20238},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20363},
+																							pos: position{line: 645, col: 5, offset: 20367},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20363},
+																								pos: position{line: 645, col: 5, offset: 20367},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20363},
+																										pos:        position{line: 645, col: 5, offset: 20367},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20371},
+																										pos:   position{line: 645, col: 13, offset: 20375},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9780},
@@ -19835,7 +19324,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20390},
+																										pos:        position{line: 645, col: 32, offset: 20394},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19844,19 +19333,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20631},
+																							pos: position{line: 652, col: 5, offset: 20635},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20631},
+																								pos: position{line: 652, col: 5, offset: 20635},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20631},
+																										pos:        position{line: 652, col: 5, offset: 20635},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20635},
+																										pos:   position{line: 652, col: 9, offset: 20639},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9780},
@@ -19888,7 +19377,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20654},
+																										pos:        position{line: 652, col: 28, offset: 20658},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19897,132 +19386,51 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20835},
+																							pos: position{line: 659, col: 21, offset: 20883},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20835},
+																								pos: position{line: 659, col: 21, offset: 20883},
 																								exprs: []interface{}{
+																									&zeroOrOneExpr{
+																										pos: position{line: 659, col: 21, offset: 20883},
+																										expr: &litMatcher{
+																											pos:        position{line: 659, col: 21, offset: 20883},
+																											val:        "\\",
+																											ignoreCase: false,
+																											want:       "\"\\\\\"",
+																										},
+																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20835},
-																										val:        "{counter:",
+																										pos:        position{line: 659, col: 26, offset: 20888},
+																										val:        "{counter",
 																										ignoreCase: false,
-																										want:       "\"{counter:\"",
-																									},
-																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20847},
-																										label: "name",
-																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9780},
-																											run: (*parser).callonImageBlock66,
-																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9780},
-																												exprs: []interface{}{
-																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9780},
-																														val:        "[_\\pL\\pN]",
-																														chars:      []rune{'_'},
-																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9790},
-																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 28, offset: 9790},
-																															val:        "[_-\\pL\\pN]",
-																															chars:      []rune{'_', '-'},
-																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																															ignoreCase: false,
-																															inverted:   false,
-																														},
-																													},
-																												},
-																											},
-																										},
+																										want:       "\"{counter\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20866},
-																										label: "start",
+																										pos:   position{line: 659, col: 37, offset: 20899},
+																										label: "hidden",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20872},
-																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21167},
-																												run: (*parser).callonImageBlock73,
-																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21167},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21167},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21171},
-																															label: "start",
-																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21178},
-																																alternatives: []interface{}{
-																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		run: (*parser).callonImageBlock78,
-																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21178},
-																																			val:        "[A-Za-z]",
-																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																			ignoreCase: false,
-																																			inverted:   false,
-																																		},
-																																	},
-																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21232},
-																																		run: (*parser).callonImageBlock80,
-																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21232},
-																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21232},
-																																				val:        "[0-9]",
-																																				ranges:     []rune{'0', '9'},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
-																													},
-																												},
+																											pos: position{line: 659, col: 44, offset: 20906},
+																											expr: &litMatcher{
+																												pos:        position{line: 659, col: 45, offset: 20907},
+																												val:        "2",
+																												ignoreCase: false,
+																												want:       "\"2\"",
 																											},
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20888},
-																										val:        "}",
-																										ignoreCase: false,
-																										want:       "\"}\"",
-																									},
-																								},
-																							},
-																						},
-																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 21006},
-																							run: (*parser).callonImageBlock84,
-																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 21006},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 21006},
-																										val:        "{counter2:",
+																										pos:        position{line: 659, col: 51, offset: 20913},
+																										val:        ":",
 																										ignoreCase: false,
-																										want:       "\"{counter2:\"",
+																										want:       "\":\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 21019},
+																										pos:   position{line: 659, col: 55, offset: 20917},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9780},
-																											run: (*parser).callonImageBlock88,
+																											run: (*parser).callonImageBlock72,
 																											expr: &seqExpr{
 																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
@@ -20050,13 +19458,13 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21038},
+																										pos:   position{line: 659, col: 74, offset: 20936},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21044},
+																											pos: position{line: 659, col: 80, offset: 20942},
 																											expr: &actionExpr{
 																												pos: position{line: 666, col: 17, offset: 21167},
-																												run: (*parser).callonImageBlock95,
+																												run: (*parser).callonImageBlock79,
 																												expr: &seqExpr{
 																													pos: position{line: 666, col: 17, offset: 21167},
 																													exprs: []interface{}{
@@ -20074,7 +19482,7 @@ var g = &grammar{
 																																alternatives: []interface{}{
 																																	&actionExpr{
 																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		run: (*parser).callonImageBlock100,
+																																		run: (*parser).callonImageBlock84,
 																																		expr: &charClassMatcher{
 																																			pos:        position{line: 666, col: 28, offset: 21178},
 																																			val:        "[A-Za-z]",
@@ -20085,7 +19493,7 @@ var g = &grammar{
 																																	},
 																																	&actionExpr{
 																																		pos: position{line: 668, col: 9, offset: 21232},
-																																		run: (*parser).callonImageBlock102,
+																																		run: (*parser).callonImageBlock86,
 																																		expr: &oneOrMoreExpr{
 																																			pos: position{line: 668, col: 9, offset: 21232},
 																																			expr: &charClassMatcher{
@@ -20106,7 +19514,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21060},
+																										pos:        position{line: 659, col: 96, offset: 20958},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20122,7 +19530,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 1198, col: 23, offset: 37016},
-																	run: (*parser).callonImageBlock106,
+																	run: (*parser).callonImageBlock90,
 																	expr: &seqExpr{
 																		pos: position{line: 1198, col: 23, offset: 37016},
 																		exprs: []interface{}{
@@ -20137,7 +19545,7 @@ var g = &grammar{
 																				label: "ref",
 																				expr: &actionExpr{
 																					pos: position{line: 1198, col: 56, offset: 37049},
-																					run: (*parser).callonImageBlock110,
+																					run: (*parser).callonImageBlock94,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 1198, col: 56, offset: 37049},
 																						expr: &charClassMatcher{
@@ -20161,7 +19569,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2854, col: 11, offset: 90493},
-																	run: (*parser).callonImageBlock114,
+																	run: (*parser).callonImageBlock98,
 																	expr: &litMatcher{
 																		pos:        position{line: 2854, col: 11, offset: 90493},
 																		val:        "{",
@@ -20191,7 +19599,7 @@ var g = &grammar{
 							pos: position{line: 1312, col: 61, offset: 41057},
 							expr: &actionExpr{
 								pos: position{line: 2875, col: 10, offset: 90978},
-								run: (*parser).callonImageBlock119,
+								run: (*parser).callonImageBlock103,
 								expr: &charClassMatcher{
 									pos:        position{line: 2875, col: 10, offset: 90978},
 									val:        "[\\t ]",
@@ -20206,7 +19614,7 @@ var g = &grammar{
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2884, col: 12, offset: 91149},
-									run: (*parser).callonImageBlock122,
+									run: (*parser).callonImageBlock106,
 									expr: &choiceExpr{
 										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
@@ -20408,35 +19816,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20153},
+																	pos: position{line: 636, col: 5, offset: 20157},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20153},
+																		pos: position{line: 636, col: 5, offset: 20157},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20225},
+																				pos:   position{line: 639, col: 5, offset: 20229},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20234},
+																					pos: position{line: 639, col: 14, offset: 20238},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20363},
+																							pos: position{line: 645, col: 5, offset: 20367},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20363},
+																								pos: position{line: 645, col: 5, offset: 20367},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20363},
+																										pos:        position{line: 645, col: 5, offset: 20367},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20371},
+																										pos:   position{line: 645, col: 13, offset: 20375},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9780},
@@ -20468,7 +19876,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20390},
+																										pos:        position{line: 645, col: 32, offset: 20394},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20477,19 +19885,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20631},
+																							pos: position{line: 652, col: 5, offset: 20635},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20631},
+																								pos: position{line: 652, col: 5, offset: 20635},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20631},
+																										pos:        position{line: 652, col: 5, offset: 20635},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20635},
+																										pos:   position{line: 652, col: 9, offset: 20639},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9780},
@@ -20521,7 +19929,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20654},
+																										pos:        position{line: 652, col: 28, offset: 20658},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20530,132 +19938,51 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20835},
+																							pos: position{line: 659, col: 21, offset: 20883},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20835},
+																								pos: position{line: 659, col: 21, offset: 20883},
 																								exprs: []interface{}{
+																									&zeroOrOneExpr{
+																										pos: position{line: 659, col: 21, offset: 20883},
+																										expr: &litMatcher{
+																											pos:        position{line: 659, col: 21, offset: 20883},
+																											val:        "\\",
+																											ignoreCase: false,
+																											want:       "\"\\\\\"",
+																										},
+																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20835},
-																										val:        "{counter:",
+																										pos:        position{line: 659, col: 26, offset: 20888},
+																										val:        "{counter",
 																										ignoreCase: false,
-																										want:       "\"{counter:\"",
+																										want:       "\"{counter\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20847},
-																										label: "name",
-																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9780},
-																											run: (*parser).callonInlineImage68,
-																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9780},
-																												exprs: []interface{}{
-																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9780},
-																														val:        "[_\\pL\\pN]",
-																														chars:      []rune{'_'},
-																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9790},
-																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 28, offset: 9790},
-																															val:        "[_-\\pL\\pN]",
-																															chars:      []rune{'_', '-'},
-																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																															ignoreCase: false,
-																															inverted:   false,
-																														},
-																													},
-																												},
-																											},
-																										},
-																									},
-																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20866},
-																										label: "start",
+																										pos:   position{line: 659, col: 37, offset: 20899},
+																										label: "hidden",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20872},
-																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21167},
-																												run: (*parser).callonInlineImage75,
-																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21167},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21167},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21171},
-																															label: "start",
-																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21178},
-																																alternatives: []interface{}{
-																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		run: (*parser).callonInlineImage80,
-																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21178},
-																																			val:        "[A-Za-z]",
-																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																			ignoreCase: false,
-																																			inverted:   false,
-																																		},
-																																	},
-																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21232},
-																																		run: (*parser).callonInlineImage82,
-																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21232},
-																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21232},
-																																				val:        "[0-9]",
-																																				ranges:     []rune{'0', '9'},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
-																													},
-																												},
+																											pos: position{line: 659, col: 44, offset: 20906},
+																											expr: &litMatcher{
+																												pos:        position{line: 659, col: 45, offset: 20907},
+																												val:        "2",
+																												ignoreCase: false,
+																												want:       "\"2\"",
 																											},
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20888},
-																										val:        "}",
-																										ignoreCase: false,
-																										want:       "\"}\"",
-																									},
-																								},
-																							},
-																						},
-																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 21006},
-																							run: (*parser).callonInlineImage86,
-																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 21006},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 21006},
-																										val:        "{counter2:",
+																										pos:        position{line: 659, col: 51, offset: 20913},
+																										val:        ":",
 																										ignoreCase: false,
-																										want:       "\"{counter2:\"",
+																										want:       "\":\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 21019},
+																										pos:   position{line: 659, col: 55, offset: 20917},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9780},
-																											run: (*parser).callonInlineImage90,
+																											run: (*parser).callonInlineImage74,
 																											expr: &seqExpr{
 																												pos: position{line: 318, col: 18, offset: 9780},
 																												exprs: []interface{}{
@@ -20683,13 +20010,13 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21038},
+																										pos:   position{line: 659, col: 74, offset: 20936},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21044},
+																											pos: position{line: 659, col: 80, offset: 20942},
 																											expr: &actionExpr{
 																												pos: position{line: 666, col: 17, offset: 21167},
-																												run: (*parser).callonInlineImage97,
+																												run: (*parser).callonInlineImage81,
 																												expr: &seqExpr{
 																													pos: position{line: 666, col: 17, offset: 21167},
 																													exprs: []interface{}{
@@ -20707,7 +20034,7 @@ var g = &grammar{
 																																alternatives: []interface{}{
 																																	&actionExpr{
 																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		run: (*parser).callonInlineImage102,
+																																		run: (*parser).callonInlineImage86,
 																																		expr: &charClassMatcher{
 																																			pos:        position{line: 666, col: 28, offset: 21178},
 																																			val:        "[A-Za-z]",
@@ -20718,7 +20045,7 @@ var g = &grammar{
 																																	},
 																																	&actionExpr{
 																																		pos: position{line: 668, col: 9, offset: 21232},
-																																		run: (*parser).callonInlineImage104,
+																																		run: (*parser).callonInlineImage88,
 																																		expr: &oneOrMoreExpr{
 																																			pos: position{line: 668, col: 9, offset: 21232},
 																																			expr: &charClassMatcher{
@@ -20739,7 +20066,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21060},
+																										pos:        position{line: 659, col: 96, offset: 20958},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20755,7 +20082,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 1198, col: 23, offset: 37016},
-																	run: (*parser).callonInlineImage108,
+																	run: (*parser).callonInlineImage92,
 																	expr: &seqExpr{
 																		pos: position{line: 1198, col: 23, offset: 37016},
 																		exprs: []interface{}{
@@ -20770,7 +20097,7 @@ var g = &grammar{
 																				label: "ref",
 																				expr: &actionExpr{
 																					pos: position{line: 1198, col: 56, offset: 37049},
-																					run: (*parser).callonInlineImage112,
+																					run: (*parser).callonInlineImage96,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 1198, col: 56, offset: 37049},
 																						expr: &charClassMatcher{
@@ -20794,7 +20121,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2854, col: 11, offset: 90493},
-																	run: (*parser).callonInlineImage116,
+																	run: (*parser).callonInlineImage100,
 																	expr: &litMatcher{
 																		pos:        position{line: 2854, col: 11, offset: 90493},
 																		val:        "{",
@@ -21279,35 +20606,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20153},
+										pos: position{line: 636, col: 5, offset: 20157},
 										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20153},
+													pos: position{line: 636, col: 5, offset: 20157},
 													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20225},
+													pos:   position{line: 639, col: 5, offset: 20229},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20234},
+														pos: position{line: 639, col: 14, offset: 20238},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20363},
+																pos: position{line: 645, col: 5, offset: 20367},
 																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20363},
+																			pos:        position{line: 645, col: 5, offset: 20367},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20371},
+																			pos:   position{line: 645, col: 13, offset: 20375},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
@@ -21339,7 +20666,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20390},
+																			pos:        position{line: 645, col: 32, offset: 20394},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21348,19 +20675,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20631},
+																pos: position{line: 652, col: 5, offset: 20635},
 																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20631},
+																			pos:        position{line: 652, col: 5, offset: 20635},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20635},
+																			pos:   position{line: 652, col: 9, offset: 20639},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
@@ -21392,7 +20719,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20654},
+																			pos:        position{line: 652, col: 28, offset: 20658},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21401,132 +20728,51 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20835},
+																pos: position{line: 659, col: 21, offset: 20883},
 																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	exprs: []interface{}{
+																		&zeroOrOneExpr{
+																			pos: position{line: 659, col: 21, offset: 20883},
+																			expr: &litMatcher{
+																				pos:        position{line: 659, col: 21, offset: 20883},
+																				val:        "\\",
+																				ignoreCase: false,
+																				want:       "\"\\\\\"",
+																			},
+																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20835},
-																			val:        "{counter:",
+																			pos:        position{line: 659, col: 26, offset: 20888},
+																			val:        "{counter",
 																			ignoreCase: false,
-																			want:       "\"{counter:\"",
+																			want:       "\"{counter\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20847},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9780},
-																				run: (*parser).callonFootnoteElement100,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9780},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9790},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 28, offset: 9790},
-																								val:        "[_-\\pL\\pN]",
-																								chars:      []rune{'_', '-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20866},
-																			label: "start",
+																			pos:   position{line: 659, col: 37, offset: 20899},
+																			label: "hidden",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20872},
-																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21167},
-																					run: (*parser).callonFootnoteElement107,
-																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21167},
-																								val:        ":",
-																								ignoreCase: false,
-																								want:       "\":\"",
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21171},
-																								label: "start",
-																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21178},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21178},
-																											run: (*parser).callonFootnoteElement112,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21178},
-																												val:        "[A-Za-z]",
-																												ranges:     []rune{'A', 'Z', 'a', 'z'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21232},
-																											run: (*parser).callonFootnoteElement114,
-																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21232},
-																													val:        "[0-9]",
-																													ranges:     []rune{'0', '9'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
+																				pos: position{line: 659, col: 44, offset: 20906},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 45, offset: 20907},
+																					val:        "2",
+																					ignoreCase: false,
+																					want:       "\"2\"",
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20888},
-																			val:        "}",
-																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
-																	},
-																},
-															},
-															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21006},
-																run: (*parser).callonFootnoteElement118,
-																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21006},
-																			val:        "{counter2:",
+																			pos:        position{line: 659, col: 51, offset: 20913},
+																			val:        ":",
 																			ignoreCase: false,
-																			want:       "\"{counter2:\"",
+																			want:       "\":\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21019},
+																			pos:   position{line: 659, col: 55, offset: 20917},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
-																				run: (*parser).callonFootnoteElement122,
+																				run: (*parser).callonFootnoteElement106,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
@@ -21554,13 +20800,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21038},
+																			pos:   position{line: 659, col: 74, offset: 20936},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21044},
+																				pos: position{line: 659, col: 80, offset: 20942},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21167},
-																					run: (*parser).callonFootnoteElement129,
+																					run: (*parser).callonFootnoteElement113,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
@@ -21578,7 +20824,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21178},
-																											run: (*parser).callonFootnoteElement134,
+																											run: (*parser).callonFootnoteElement118,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
@@ -21589,7 +20835,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21232},
-																											run: (*parser).callonFootnoteElement136,
+																											run: (*parser).callonFootnoteElement120,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
@@ -21610,7 +20856,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21060},
+																			pos:        position{line: 659, col: 96, offset: 20958},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21626,20 +20872,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2469, col: 5, offset: 79438},
-										run: (*parser).callonFootnoteElement140,
+										run: (*parser).callonFootnoteElement124,
 										expr: &seqExpr{
 											pos: position{line: 2469, col: 5, offset: 79438},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2469, col: 5, offset: 79438},
-													run: (*parser).callonFootnoteElement142,
+													run: (*parser).callonFootnoteElement126,
 												},
 												&labeledExpr{
 													pos:   position{line: 2472, col: 5, offset: 79514},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2473, col: 9, offset: 79532},
-														run: (*parser).callonFootnoteElement144,
+														run: (*parser).callonFootnoteElement128,
 														expr: &charClassMatcher{
 															pos:        position{line: 2473, col: 10, offset: 79533},
 															val:        "[<>&]",
@@ -21654,7 +20900,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2884, col: 12, offset: 91149},
-										run: (*parser).callonFootnoteElement146,
+										run: (*parser).callonFootnoteElement130,
 										expr: &choiceExpr{
 											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
@@ -21681,7 +20927,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2814, col: 12, offset: 89286},
-										run: (*parser).callonFootnoteElement151,
+										run: (*parser).callonFootnoteElement135,
 										expr: &charClassMatcher{
 											pos:        position{line: 2814, col: 12, offset: 89286},
 											val:        "[^\\r\\n]",
@@ -21958,35 +21204,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20153},
+																			pos: position{line: 636, col: 5, offset: 20157},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
+																						pos: position{line: 636, col: 5, offset: 20157},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20225},
+																						pos:   position{line: 639, col: 5, offset: 20229},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20234},
+																							pos: position{line: 639, col: 14, offset: 20238},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20363},
+																									pos: position{line: 645, col: 5, offset: 20367},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20363},
+																										pos: position{line: 645, col: 5, offset: 20367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20363},
+																												pos:        position{line: 645, col: 5, offset: 20367},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20371},
+																												pos:   position{line: 645, col: 13, offset: 20375},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -22018,7 +21264,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20390},
+																												pos:        position{line: 645, col: 32, offset: 20394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22027,19 +21273,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20631},
+																									pos: position{line: 652, col: 5, offset: 20635},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20631},
+																										pos: position{line: 652, col: 5, offset: 20635},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20631},
+																												pos:        position{line: 652, col: 5, offset: 20635},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20635},
+																												pos:   position{line: 652, col: 9, offset: 20639},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -22071,7 +21317,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20654},
+																												pos:        position{line: 652, col: 28, offset: 20658},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22080,132 +21326,51 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20835},
+																									pos: position{line: 659, col: 21, offset: 20883},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20835},
+																										pos: position{line: 659, col: 21, offset: 20883},
 																										exprs: []interface{}{
+																											&zeroOrOneExpr{
+																												pos: position{line: 659, col: 21, offset: 20883},
+																												expr: &litMatcher{
+																													pos:        position{line: 659, col: 21, offset: 20883},
+																													val:        "\\",
+																													ignoreCase: false,
+																													want:       "\"\\\\\"",
+																												},
+																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20835},
-																												val:        "{counter:",
+																												pos:        position{line: 659, col: 26, offset: 20888},
+																												val:        "{counter",
 																												ignoreCase: false,
-																												want:       "\"{counter:\"",
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20847},
-																												label: "name",
-																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonLink68,
-																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9780},
-																														exprs: []interface{}{
-																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9780},
-																																val:        "[_\\pL\\pN]",
-																																chars:      []rune{'_'},
-																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9790},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 28, offset: 9790},
-																																	val:        "[_-\\pL\\pN]",
-																																	chars:      []rune{'_', '-'},
-																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
+																												want:       "\"{counter\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20866},
-																												label: "start",
+																												pos:   position{line: 659, col: 37, offset: 20899},
+																												label: "hidden",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20872},
-																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonLink75,
-																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21167},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21167},
-																																	val:        ":",
-																																	ignoreCase: false,
-																																	want:       "\":\"",
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21171},
-																																	label: "start",
-																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		alternatives: []interface{}{
-																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonLink80,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21178},
-																																					val:        "[A-Za-z]",
-																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonLink82,
-																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21232},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21232},
-																																						val:        "[0-9]",
-																																						ranges:     []rune{'0', '9'},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
+																													pos: position{line: 659, col: 44, offset: 20906},
+																													expr: &litMatcher{
+																														pos:        position{line: 659, col: 45, offset: 20907},
+																														val:        "2",
+																														ignoreCase: false,
+																														want:       "\"2\"",
 																													},
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20888},
-																												val:        "}",
-																												ignoreCase: false,
-																												want:       "\"}\"",
-																											},
-																										},
-																									},
-																								},
-																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21006},
-																									run: (*parser).callonLink86,
-																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21006},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21006},
-																												val:        "{counter2:",
+																												pos:        position{line: 659, col: 51, offset: 20913},
+																												val:        ":",
 																												ignoreCase: false,
-																												want:       "\"{counter2:\"",
+																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21019},
+																												pos:   position{line: 659, col: 55, offset: 20917},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonLink90,
+																													run: (*parser).callonLink74,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -22233,13 +21398,13 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21038},
+																												pos:   position{line: 659, col: 74, offset: 20936},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21044},
+																													pos: position{line: 659, col: 80, offset: 20942},
 																													expr: &actionExpr{
 																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonLink97,
+																														run: (*parser).callonLink81,
 																														expr: &seqExpr{
 																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
@@ -22257,7 +21422,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonLink102,
+																																				run: (*parser).callonLink86,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
@@ -22268,7 +21433,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonLink104,
+																																				run: (*parser).callonLink88,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
@@ -22289,7 +21454,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21060},
+																												pos:        position{line: 659, col: 96, offset: 20958},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22305,7 +21470,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1198, col: 23, offset: 37016},
-																			run: (*parser).callonLink108,
+																			run: (*parser).callonLink92,
 																			expr: &seqExpr{
 																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
@@ -22320,7 +21485,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1198, col: 56, offset: 37049},
-																							run: (*parser).callonLink112,
+																							run: (*parser).callonLink96,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
@@ -22344,7 +21509,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 2854, col: 11, offset: 90493},
-																			run: (*parser).callonLink116,
+																			run: (*parser).callonLink100,
 																			expr: &litMatcher{
 																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
@@ -22381,7 +21546,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1440, col: 17, offset: 46507},
-						run: (*parser).callonLink121,
+						run: (*parser).callonLink105,
 						expr: &seqExpr{
 							pos: position{line: 1440, col: 17, offset: 46507},
 							exprs: []interface{}{
@@ -22390,7 +21555,7 @@ var g = &grammar{
 									label: "local",
 									expr: &actionExpr{
 										pos: position{line: 1445, col: 5, offset: 46672},
-										run: (*parser).callonLink124,
+										run: (*parser).callonLink108,
 										expr: &seqExpr{
 											pos: position{line: 1445, col: 5, offset: 46672},
 											exprs: []interface{}{
@@ -22399,7 +21564,7 @@ var g = &grammar{
 													label: "local",
 													expr: &actionExpr{
 														pos: position{line: 1445, col: 12, offset: 46679},
-														run: (*parser).callonLink127,
+														run: (*parser).callonLink111,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1445, col: 12, offset: 46679},
 															expr: &charClassMatcher{
@@ -22416,7 +21581,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1448, col: 5, offset: 46763},
-													run: (*parser).callonLink130,
+													run: (*parser).callonLink114,
 												},
 											},
 										},
@@ -22433,7 +21598,7 @@ var g = &grammar{
 									label: "domain",
 									expr: &actionExpr{
 										pos: position{line: 1457, col: 23, offset: 47057},
-										run: (*parser).callonLink133,
+										run: (*parser).callonLink117,
 										expr: &seqExpr{
 											pos: position{line: 1457, col: 23, offset: 47057},
 											exprs: []interface{}{
@@ -22442,7 +21607,7 @@ var g = &grammar{
 													label: "domain",
 													expr: &actionExpr{
 														pos: position{line: 1457, col: 31, offset: 47065},
-														run: (*parser).callonLink136,
+														run: (*parser).callonLink120,
 														expr: &seqExpr{
 															pos: position{line: 1457, col: 31, offset: 47065},
 															exprs: []interface{}{
@@ -22487,7 +21652,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1460, col: 5, offset: 47141},
-													run: (*parser).callonLink145,
+													run: (*parser).callonLink129,
 												},
 											},
 										},
@@ -22658,35 +21823,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20153},
+																			pos: position{line: 636, col: 5, offset: 20157},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
+																						pos: position{line: 636, col: 5, offset: 20157},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20225},
+																						pos:   position{line: 639, col: 5, offset: 20229},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20234},
+																							pos: position{line: 639, col: 14, offset: 20238},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20363},
+																									pos: position{line: 645, col: 5, offset: 20367},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20363},
+																										pos: position{line: 645, col: 5, offset: 20367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20363},
+																												pos:        position{line: 645, col: 5, offset: 20367},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20371},
+																												pos:   position{line: 645, col: 13, offset: 20375},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -22718,7 +21883,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20390},
+																												pos:        position{line: 645, col: 32, offset: 20394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22727,19 +21892,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20631},
+																									pos: position{line: 652, col: 5, offset: 20635},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20631},
+																										pos: position{line: 652, col: 5, offset: 20635},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20631},
+																												pos:        position{line: 652, col: 5, offset: 20635},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20635},
+																												pos:   position{line: 652, col: 9, offset: 20639},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -22771,7 +21936,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20654},
+																												pos:        position{line: 652, col: 28, offset: 20658},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22780,132 +21945,51 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20835},
+																									pos: position{line: 659, col: 21, offset: 20883},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20835},
+																										pos: position{line: 659, col: 21, offset: 20883},
 																										exprs: []interface{}{
+																											&zeroOrOneExpr{
+																												pos: position{line: 659, col: 21, offset: 20883},
+																												expr: &litMatcher{
+																													pos:        position{line: 659, col: 21, offset: 20883},
+																													val:        "\\",
+																													ignoreCase: false,
+																													want:       "\"\\\\\"",
+																												},
+																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20835},
-																												val:        "{counter:",
+																												pos:        position{line: 659, col: 26, offset: 20888},
+																												val:        "{counter",
 																												ignoreCase: false,
-																												want:       "\"{counter:\"",
+																												want:       "\"{counter\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20847},
-																												label: "name",
-																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonRelativeLink67,
-																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9780},
-																														exprs: []interface{}{
-																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9780},
-																																val:        "[_\\pL\\pN]",
-																																chars:      []rune{'_'},
-																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9790},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 28, offset: 9790},
-																																	val:        "[_-\\pL\\pN]",
-																																	chars:      []rune{'_', '-'},
-																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20866},
-																												label: "start",
+																												pos:   position{line: 659, col: 37, offset: 20899},
+																												label: "hidden",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20872},
-																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonRelativeLink74,
-																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21167},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21167},
-																																	val:        ":",
-																																	ignoreCase: false,
-																																	want:       "\":\"",
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21171},
-																																	label: "start",
-																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		alternatives: []interface{}{
-																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonRelativeLink79,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21178},
-																																					val:        "[A-Za-z]",
-																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonRelativeLink81,
-																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21232},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21232},
-																																						val:        "[0-9]",
-																																						ranges:     []rune{'0', '9'},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
+																													pos: position{line: 659, col: 44, offset: 20906},
+																													expr: &litMatcher{
+																														pos:        position{line: 659, col: 45, offset: 20907},
+																														val:        "2",
+																														ignoreCase: false,
+																														want:       "\"2\"",
 																													},
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20888},
-																												val:        "}",
-																												ignoreCase: false,
-																												want:       "\"}\"",
-																											},
-																										},
-																									},
-																								},
-																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21006},
-																									run: (*parser).callonRelativeLink85,
-																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21006},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21006},
-																												val:        "{counter2:",
+																												pos:        position{line: 659, col: 51, offset: 20913},
+																												val:        ":",
 																												ignoreCase: false,
-																												want:       "\"{counter2:\"",
+																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21019},
+																												pos:   position{line: 659, col: 55, offset: 20917},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonRelativeLink89,
+																													run: (*parser).callonRelativeLink73,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -22933,13 +22017,13 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21038},
+																												pos:   position{line: 659, col: 74, offset: 20936},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21044},
+																													pos: position{line: 659, col: 80, offset: 20942},
 																													expr: &actionExpr{
 																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonRelativeLink96,
+																														run: (*parser).callonRelativeLink80,
 																														expr: &seqExpr{
 																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
@@ -22957,7 +22041,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonRelativeLink101,
+																																				run: (*parser).callonRelativeLink85,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
@@ -22968,7 +22052,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonRelativeLink103,
+																																				run: (*parser).callonRelativeLink87,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
@@ -22989,7 +22073,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21060},
+																												pos:        position{line: 659, col: 96, offset: 20958},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23005,7 +22089,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1198, col: 23, offset: 37016},
-																			run: (*parser).callonRelativeLink107,
+																			run: (*parser).callonRelativeLink91,
 																			expr: &seqExpr{
 																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
@@ -23020,7 +22104,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1198, col: 56, offset: 37049},
-																							run: (*parser).callonRelativeLink111,
+																							run: (*parser).callonRelativeLink95,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
@@ -23044,7 +22128,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 2854, col: 11, offset: 90493},
-																			run: (*parser).callonRelativeLink115,
+																			run: (*parser).callonRelativeLink99,
 																			expr: &litMatcher{
 																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
@@ -23075,7 +22159,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1424, col: 5, offset: 45869},
-						run: (*parser).callonRelativeLink119,
+						run: (*parser).callonRelativeLink103,
 						expr: &seqExpr{
 							pos: position{line: 1424, col: 5, offset: 45869},
 							exprs: []interface{}{
@@ -23090,7 +22174,7 @@ var g = &grammar{
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2833, col: 13, offset: 89737},
-										run: (*parser).callonRelativeLink123,
+										run: (*parser).callonRelativeLink107,
 										expr: &seqExpr{
 											pos: position{line: 2833, col: 13, offset: 89737},
 											exprs: []interface{}{
@@ -23101,7 +22185,7 @@ var g = &grammar{
 														pos: position{line: 2833, col: 20, offset: 89744},
 														expr: &actionExpr{
 															pos: position{line: 2841, col: 11, offset: 89983},
-															run: (*parser).callonRelativeLink127,
+															run: (*parser).callonRelativeLink111,
 															expr: &choiceExpr{
 																pos: position{line: 2841, col: 12, offset: 89984},
 																alternatives: []interface{}{
@@ -23145,7 +22229,7 @@ var g = &grammar{
 													label: "path",
 													expr: &actionExpr{
 														pos: position{line: 2846, col: 5, offset: 90095},
-														run: (*parser).callonRelativeLink135,
+														run: (*parser).callonRelativeLink119,
 														expr: &labeledExpr{
 															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
@@ -23156,7 +22240,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2847, col: 9, offset: 90114},
-																			run: (*parser).callonRelativeLink139,
+																			run: (*parser).callonRelativeLink123,
 																			expr: &seqExpr{
 																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
@@ -23201,7 +22285,7 @@ var g = &grammar{
 																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonRelativeLink150,
+																									run: (*parser).callonRelativeLink134,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -23226,39 +22310,39 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20153},
-																			run: (*parser).callonRelativeLink155,
+																			pos: position{line: 636, col: 5, offset: 20157},
+																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
-																						run: (*parser).callonRelativeLink157,
+																						pos: position{line: 636, col: 5, offset: 20157},
+																						run: (*parser).callonRelativeLink141,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20225},
+																						pos:   position{line: 639, col: 5, offset: 20229},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20234},
+																							pos: position{line: 639, col: 14, offset: 20238},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20363},
-																									run: (*parser).callonRelativeLink160,
+																									pos: position{line: 645, col: 5, offset: 20367},
+																									run: (*parser).callonRelativeLink144,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20363},
+																										pos: position{line: 645, col: 5, offset: 20367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20363},
+																												pos:        position{line: 645, col: 5, offset: 20367},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20371},
+																												pos:   position{line: 645, col: 13, offset: 20375},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonRelativeLink164,
+																													run: (*parser).callonRelativeLink148,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -23286,7 +22370,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20390},
+																												pos:        position{line: 645, col: 32, offset: 20394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23295,23 +22379,23 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20631},
-																									run: (*parser).callonRelativeLink170,
+																									pos: position{line: 652, col: 5, offset: 20635},
+																									run: (*parser).callonRelativeLink154,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20631},
+																										pos: position{line: 652, col: 5, offset: 20635},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20631},
+																												pos:        position{line: 652, col: 5, offset: 20635},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20635},
+																												pos:   position{line: 652, col: 9, offset: 20639},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonRelativeLink174,
+																													run: (*parser).callonRelativeLink158,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -23339,7 +22423,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20654},
+																												pos:        position{line: 652, col: 28, offset: 20658},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23348,132 +22432,51 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20835},
-																									run: (*parser).callonRelativeLink180,
+																									pos: position{line: 659, col: 21, offset: 20883},
+																									run: (*parser).callonRelativeLink164,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20835},
+																										pos: position{line: 659, col: 21, offset: 20883},
 																										exprs: []interface{}{
+																											&zeroOrOneExpr{
+																												pos: position{line: 659, col: 21, offset: 20883},
+																												expr: &litMatcher{
+																													pos:        position{line: 659, col: 21, offset: 20883},
+																													val:        "\\",
+																													ignoreCase: false,
+																													want:       "\"\\\\\"",
+																												},
+																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20835},
-																												val:        "{counter:",
+																												pos:        position{line: 659, col: 26, offset: 20888},
+																												val:        "{counter",
 																												ignoreCase: false,
-																												want:       "\"{counter:\"",
+																												want:       "\"{counter\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20847},
-																												label: "name",
-																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonRelativeLink184,
-																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9780},
-																														exprs: []interface{}{
-																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9780},
-																																val:        "[_\\pL\\pN]",
-																																chars:      []rune{'_'},
-																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9790},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 28, offset: 9790},
-																																	val:        "[_-\\pL\\pN]",
-																																	chars:      []rune{'_', '-'},
-																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20866},
-																												label: "start",
+																												pos:   position{line: 659, col: 37, offset: 20899},
+																												label: "hidden",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20872},
-																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonRelativeLink191,
-																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21167},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21167},
-																																	val:        ":",
-																																	ignoreCase: false,
-																																	want:       "\":\"",
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21171},
-																																	label: "start",
-																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		alternatives: []interface{}{
-																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonRelativeLink196,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21178},
-																																					val:        "[A-Za-z]",
-																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonRelativeLink198,
-																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21232},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21232},
-																																						val:        "[0-9]",
-																																						ranges:     []rune{'0', '9'},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
+																													pos: position{line: 659, col: 44, offset: 20906},
+																													expr: &litMatcher{
+																														pos:        position{line: 659, col: 45, offset: 20907},
+																														val:        "2",
+																														ignoreCase: false,
+																														want:       "\"2\"",
 																													},
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20888},
-																												val:        "}",
+																												pos:        position{line: 659, col: 51, offset: 20913},
+																												val:        ":",
 																												ignoreCase: false,
-																												want:       "\"}\"",
-																											},
-																										},
-																									},
-																								},
-																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21006},
-																									run: (*parser).callonRelativeLink202,
-																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21006},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21006},
-																												val:        "{counter2:",
-																												ignoreCase: false,
-																												want:       "\"{counter2:\"",
+																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21019},
+																												pos:   position{line: 659, col: 55, offset: 20917},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonRelativeLink206,
+																													run: (*parser).callonRelativeLink174,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -23501,13 +22504,13 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21038},
+																												pos:   position{line: 659, col: 74, offset: 20936},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21044},
+																													pos: position{line: 659, col: 80, offset: 20942},
 																													expr: &actionExpr{
 																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonRelativeLink213,
+																														run: (*parser).callonRelativeLink181,
 																														expr: &seqExpr{
 																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
@@ -23525,7 +22528,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonRelativeLink218,
+																																				run: (*parser).callonRelativeLink186,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
@@ -23536,7 +22539,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonRelativeLink220,
+																																				run: (*parser).callonRelativeLink188,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
@@ -23557,7 +22560,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21060},
+																												pos:        position{line: 659, col: 96, offset: 20958},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23573,7 +22576,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1198, col: 23, offset: 37016},
-																			run: (*parser).callonRelativeLink224,
+																			run: (*parser).callonRelativeLink192,
 																			expr: &seqExpr{
 																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
@@ -23588,7 +22591,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1198, col: 56, offset: 37049},
-																							run: (*parser).callonRelativeLink228,
+																							run: (*parser).callonRelativeLink196,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
@@ -23612,7 +22615,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 2854, col: 11, offset: 90493},
-																			run: (*parser).callonRelativeLink232,
+																			run: (*parser).callonRelativeLink200,
 																			expr: &litMatcher{
 																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
@@ -23809,35 +22812,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20153},
+																			pos: position{line: 636, col: 5, offset: 20157},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
+																						pos: position{line: 636, col: 5, offset: 20157},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20225},
+																						pos:   position{line: 639, col: 5, offset: 20229},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20234},
+																							pos: position{line: 639, col: 14, offset: 20238},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20363},
+																									pos: position{line: 645, col: 5, offset: 20367},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20363},
+																										pos: position{line: 645, col: 5, offset: 20367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20363},
+																												pos:        position{line: 645, col: 5, offset: 20367},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20371},
+																												pos:   position{line: 645, col: 13, offset: 20375},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -23869,7 +22872,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20390},
+																												pos:        position{line: 645, col: 32, offset: 20394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23878,19 +22881,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20631},
+																									pos: position{line: 652, col: 5, offset: 20635},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20631},
+																										pos: position{line: 652, col: 5, offset: 20635},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20631},
+																												pos:        position{line: 652, col: 5, offset: 20635},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20635},
+																												pos:   position{line: 652, col: 9, offset: 20639},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
@@ -23922,7 +22925,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20654},
+																												pos:        position{line: 652, col: 28, offset: 20658},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23931,132 +22934,51 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20835},
+																									pos: position{line: 659, col: 21, offset: 20883},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20835},
+																										pos: position{line: 659, col: 21, offset: 20883},
 																										exprs: []interface{}{
+																											&zeroOrOneExpr{
+																												pos: position{line: 659, col: 21, offset: 20883},
+																												expr: &litMatcher{
+																													pos:        position{line: 659, col: 21, offset: 20883},
+																													val:        "\\",
+																													ignoreCase: false,
+																													want:       "\"\\\\\"",
+																												},
+																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20835},
-																												val:        "{counter:",
+																												pos:        position{line: 659, col: 26, offset: 20888},
+																												val:        "{counter",
 																												ignoreCase: false,
-																												want:       "\"{counter:\"",
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20847},
-																												label: "name",
-																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonExternalLink68,
-																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9780},
-																														exprs: []interface{}{
-																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9780},
-																																val:        "[_\\pL\\pN]",
-																																chars:      []rune{'_'},
-																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9790},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 28, offset: 9790},
-																																	val:        "[_-\\pL\\pN]",
-																																	chars:      []rune{'_', '-'},
-																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
+																												want:       "\"{counter\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20866},
-																												label: "start",
+																												pos:   position{line: 659, col: 37, offset: 20899},
+																												label: "hidden",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20872},
-																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonExternalLink75,
-																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21167},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21167},
-																																	val:        ":",
-																																	ignoreCase: false,
-																																	want:       "\":\"",
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21171},
-																																	label: "start",
-																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		alternatives: []interface{}{
-																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonExternalLink80,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21178},
-																																					val:        "[A-Za-z]",
-																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonExternalLink82,
-																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21232},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21232},
-																																						val:        "[0-9]",
-																																						ranges:     []rune{'0', '9'},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
+																													pos: position{line: 659, col: 44, offset: 20906},
+																													expr: &litMatcher{
+																														pos:        position{line: 659, col: 45, offset: 20907},
+																														val:        "2",
+																														ignoreCase: false,
+																														want:       "\"2\"",
 																													},
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20888},
-																												val:        "}",
-																												ignoreCase: false,
-																												want:       "\"}\"",
-																											},
-																										},
-																									},
-																								},
-																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21006},
-																									run: (*parser).callonExternalLink86,
-																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21006},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21006},
-																												val:        "{counter2:",
+																												pos:        position{line: 659, col: 51, offset: 20913},
+																												val:        ":",
 																												ignoreCase: false,
-																												want:       "\"{counter2:\"",
+																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21019},
+																												pos:   position{line: 659, col: 55, offset: 20917},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonExternalLink90,
+																													run: (*parser).callonExternalLink74,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -24084,13 +23006,13 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21038},
+																												pos:   position{line: 659, col: 74, offset: 20936},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21044},
+																													pos: position{line: 659, col: 80, offset: 20942},
 																													expr: &actionExpr{
 																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonExternalLink97,
+																														run: (*parser).callonExternalLink81,
 																														expr: &seqExpr{
 																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
@@ -24108,7 +23030,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonExternalLink102,
+																																				run: (*parser).callonExternalLink86,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
@@ -24119,7 +23041,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonExternalLink104,
+																																				run: (*parser).callonExternalLink88,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
@@ -24140,7 +23062,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21060},
+																												pos:        position{line: 659, col: 96, offset: 20958},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24156,7 +23078,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1198, col: 23, offset: 37016},
-																			run: (*parser).callonExternalLink108,
+																			run: (*parser).callonExternalLink92,
 																			expr: &seqExpr{
 																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
@@ -24171,7 +23093,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1198, col: 56, offset: 37049},
-																							run: (*parser).callonExternalLink112,
+																							run: (*parser).callonExternalLink96,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
@@ -24195,7 +23117,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 2854, col: 11, offset: 90493},
-																			run: (*parser).callonExternalLink116,
+																			run: (*parser).callonExternalLink100,
 																			expr: &litMatcher{
 																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
@@ -24229,7 +23151,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1436, col: 5, offset: 46356},
-						run: (*parser).callonExternalLink121,
+						run: (*parser).callonExternalLink105,
 						expr: &seqExpr{
 							pos: position{line: 1436, col: 5, offset: 46356},
 							exprs: []interface{}{
@@ -24238,7 +23160,7 @@ var g = &grammar{
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2837, col: 23, offset: 89864},
-										run: (*parser).callonExternalLink124,
+										run: (*parser).callonExternalLink108,
 										expr: &seqExpr{
 											pos: position{line: 2837, col: 23, offset: 89864},
 											exprs: []interface{}{
@@ -24256,7 +23178,7 @@ var g = &grammar{
 													label: "scheme",
 													expr: &actionExpr{
 														pos: position{line: 2841, col: 11, offset: 89983},
-														run: (*parser).callonExternalLink129,
+														run: (*parser).callonExternalLink113,
 														expr: &choiceExpr{
 															pos: position{line: 2841, col: 12, offset: 89984},
 															alternatives: []interface{}{
@@ -24299,7 +23221,7 @@ var g = &grammar{
 													label: "path",
 													expr: &actionExpr{
 														pos: position{line: 2846, col: 5, offset: 90095},
-														run: (*parser).callonExternalLink137,
+														run: (*parser).callonExternalLink121,
 														expr: &labeledExpr{
 															pos:   position{line: 2846, col: 5, offset: 90095},
 															label: "elements",
@@ -24310,7 +23232,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2847, col: 9, offset: 90114},
-																			run: (*parser).callonExternalLink141,
+																			run: (*parser).callonExternalLink125,
 																			expr: &seqExpr{
 																				pos: position{line: 2847, col: 9, offset: 90114},
 																				exprs: []interface{}{
@@ -24355,7 +23277,7 @@ var g = &grammar{
 																								pos: position{line: 2851, col: 21, offset: 90366},
 																								expr: &actionExpr{
 																									pos: position{line: 2875, col: 10, offset: 90978},
-																									run: (*parser).callonExternalLink152,
+																									run: (*parser).callonExternalLink136,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 2875, col: 10, offset: 90978},
 																										val:        "[\\t ]",
@@ -24380,39 +23302,39 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20153},
-																			run: (*parser).callonExternalLink157,
+																			pos: position{line: 636, col: 5, offset: 20157},
+																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20153},
+																				pos: position{line: 636, col: 5, offset: 20157},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20153},
-																						run: (*parser).callonExternalLink159,
+																						pos: position{line: 636, col: 5, offset: 20157},
+																						run: (*parser).callonExternalLink143,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20225},
+																						pos:   position{line: 639, col: 5, offset: 20229},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20234},
+																							pos: position{line: 639, col: 14, offset: 20238},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20363},
-																									run: (*parser).callonExternalLink162,
+																									pos: position{line: 645, col: 5, offset: 20367},
+																									run: (*parser).callonExternalLink146,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20363},
+																										pos: position{line: 645, col: 5, offset: 20367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20363},
+																												pos:        position{line: 645, col: 5, offset: 20367},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20371},
+																												pos:   position{line: 645, col: 13, offset: 20375},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonExternalLink166,
+																													run: (*parser).callonExternalLink150,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -24440,7 +23362,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20390},
+																												pos:        position{line: 645, col: 32, offset: 20394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24449,23 +23371,23 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20631},
-																									run: (*parser).callonExternalLink172,
+																									pos: position{line: 652, col: 5, offset: 20635},
+																									run: (*parser).callonExternalLink156,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20631},
+																										pos: position{line: 652, col: 5, offset: 20635},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20631},
+																												pos:        position{line: 652, col: 5, offset: 20635},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20635},
+																												pos:   position{line: 652, col: 9, offset: 20639},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonExternalLink176,
+																													run: (*parser).callonExternalLink160,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -24493,7 +23415,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20654},
+																												pos:        position{line: 652, col: 28, offset: 20658},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24502,132 +23424,51 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20835},
-																									run: (*parser).callonExternalLink182,
+																									pos: position{line: 659, col: 21, offset: 20883},
+																									run: (*parser).callonExternalLink166,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20835},
+																										pos: position{line: 659, col: 21, offset: 20883},
 																										exprs: []interface{}{
+																											&zeroOrOneExpr{
+																												pos: position{line: 659, col: 21, offset: 20883},
+																												expr: &litMatcher{
+																													pos:        position{line: 659, col: 21, offset: 20883},
+																													val:        "\\",
+																													ignoreCase: false,
+																													want:       "\"\\\\\"",
+																												},
+																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20835},
-																												val:        "{counter:",
+																												pos:        position{line: 659, col: 26, offset: 20888},
+																												val:        "{counter",
 																												ignoreCase: false,
-																												want:       "\"{counter:\"",
+																												want:       "\"{counter\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20847},
-																												label: "name",
-																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonExternalLink186,
-																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9780},
-																														exprs: []interface{}{
-																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9780},
-																																val:        "[_\\pL\\pN]",
-																																chars:      []rune{'_'},
-																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																ignoreCase: false,
-																																inverted:   false,
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9790},
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 28, offset: 9790},
-																																	val:        "[_-\\pL\\pN]",
-																																	chars:      []rune{'_', '-'},
-																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20866},
-																												label: "start",
+																												pos:   position{line: 659, col: 37, offset: 20899},
+																												label: "hidden",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20872},
-																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonExternalLink193,
-																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21167},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21167},
-																																	val:        ":",
-																																	ignoreCase: false,
-																																	want:       "\":\"",
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21171},
-																																	label: "start",
-																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21178},
-																																		alternatives: []interface{}{
-																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonExternalLink198,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21178},
-																																					val:        "[A-Za-z]",
-																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonExternalLink200,
-																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21232},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21232},
-																																						val:        "[0-9]",
-																																						ranges:     []rune{'0', '9'},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
+																													pos: position{line: 659, col: 44, offset: 20906},
+																													expr: &litMatcher{
+																														pos:        position{line: 659, col: 45, offset: 20907},
+																														val:        "2",
+																														ignoreCase: false,
+																														want:       "\"2\"",
 																													},
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20888},
-																												val:        "}",
-																												ignoreCase: false,
-																												want:       "\"}\"",
-																											},
-																										},
-																									},
-																								},
-																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21006},
-																									run: (*parser).callonExternalLink204,
-																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21006},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21006},
-																												val:        "{counter2:",
+																												pos:        position{line: 659, col: 51, offset: 20913},
+																												val:        ":",
 																												ignoreCase: false,
-																												want:       "\"{counter2:\"",
+																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21019},
+																												pos:   position{line: 659, col: 55, offset: 20917},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9780},
-																													run: (*parser).callonExternalLink208,
+																													run: (*parser).callonExternalLink176,
 																													expr: &seqExpr{
 																														pos: position{line: 318, col: 18, offset: 9780},
 																														exprs: []interface{}{
@@ -24655,13 +23496,13 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21038},
+																												pos:   position{line: 659, col: 74, offset: 20936},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21044},
+																													pos: position{line: 659, col: 80, offset: 20942},
 																													expr: &actionExpr{
 																														pos: position{line: 666, col: 17, offset: 21167},
-																														run: (*parser).callonExternalLink215,
+																														run: (*parser).callonExternalLink183,
 																														expr: &seqExpr{
 																															pos: position{line: 666, col: 17, offset: 21167},
 																															exprs: []interface{}{
@@ -24679,7 +23520,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 666, col: 28, offset: 21178},
-																																				run: (*parser).callonExternalLink220,
+																																				run: (*parser).callonExternalLink188,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 666, col: 28, offset: 21178},
 																																					val:        "[A-Za-z]",
@@ -24690,7 +23531,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 668, col: 9, offset: 21232},
-																																				run: (*parser).callonExternalLink222,
+																																				run: (*parser).callonExternalLink190,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 668, col: 9, offset: 21232},
 																																					expr: &charClassMatcher{
@@ -24711,7 +23552,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21060},
+																												pos:        position{line: 659, col: 96, offset: 20958},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24727,7 +23568,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1198, col: 23, offset: 37016},
-																			run: (*parser).callonExternalLink226,
+																			run: (*parser).callonExternalLink194,
 																			expr: &seqExpr{
 																				pos: position{line: 1198, col: 23, offset: 37016},
 																				exprs: []interface{}{
@@ -24742,7 +23583,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1198, col: 56, offset: 37049},
-																							run: (*parser).callonExternalLink230,
+																							run: (*parser).callonExternalLink198,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1198, col: 56, offset: 37049},
 																								expr: &charClassMatcher{
@@ -24766,7 +23607,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 2854, col: 11, offset: 90493},
-																			run: (*parser).callonExternalLink234,
+																			run: (*parser).callonExternalLink202,
 																			expr: &litMatcher{
 																				pos:        position{line: 2854, col: 11, offset: 90493},
 																				val:        "{",
@@ -41692,35 +40533,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20153},
+						pos: position{line: 636, col: 5, offset: 20157},
 						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20153},
+							pos: position{line: 636, col: 5, offset: 20157},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20153},
+									pos: position{line: 636, col: 5, offset: 20157},
 									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20225},
+									pos:   position{line: 639, col: 5, offset: 20229},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20234},
+										pos: position{line: 639, col: 14, offset: 20238},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20363},
+												pos: position{line: 645, col: 5, offset: 20367},
 												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20363},
+													pos: position{line: 645, col: 5, offset: 20367},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20363},
+															pos:        position{line: 645, col: 5, offset: 20367},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20371},
+															pos:   position{line: 645, col: 13, offset: 20375},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9780},
@@ -41752,7 +40593,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20390},
+															pos:        position{line: 645, col: 32, offset: 20394},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41761,19 +40602,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20631},
+												pos: position{line: 652, col: 5, offset: 20635},
 												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20631},
+													pos: position{line: 652, col: 5, offset: 20635},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20631},
+															pos:        position{line: 652, col: 5, offset: 20635},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20635},
+															pos:   position{line: 652, col: 9, offset: 20639},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9780},
@@ -41805,7 +40646,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20654},
+															pos:        position{line: 652, col: 28, offset: 20658},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41814,132 +40655,51 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20835},
+												pos: position{line: 659, col: 21, offset: 20883},
 												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20835},
+													pos: position{line: 659, col: 21, offset: 20883},
 													exprs: []interface{}{
+														&zeroOrOneExpr{
+															pos: position{line: 659, col: 21, offset: 20883},
+															expr: &litMatcher{
+																pos:        position{line: 659, col: 21, offset: 20883},
+																val:        "\\",
+																ignoreCase: false,
+																want:       "\"\\\\\"",
+															},
+														},
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20835},
-															val:        "{counter:",
+															pos:        position{line: 659, col: 26, offset: 20888},
+															val:        "{counter",
 															ignoreCase: false,
-															want:       "\"{counter:\"",
+															want:       "\"{counter\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20847},
-															label: "name",
-															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9780},
-																run: (*parser).callonQuotedTextElement76,
-																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9780},
-																	exprs: []interface{}{
-																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9780},
-																			val:        "[_\\pL\\pN]",
-																			chars:      []rune{'_'},
-																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																			ignoreCase: false,
-																			inverted:   false,
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9790},
-																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 28, offset: 9790},
-																				val:        "[_-\\pL\\pN]",
-																				chars:      []rune{'_', '-'},
-																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																				ignoreCase: false,
-																				inverted:   false,
-																			},
-																		},
-																	},
-																},
-															},
-														},
-														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20866},
-															label: "start",
+															pos:   position{line: 659, col: 37, offset: 20899},
+															label: "hidden",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20872},
-																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21167},
-																	run: (*parser).callonQuotedTextElement83,
-																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21167},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21167},
-																				val:        ":",
-																				ignoreCase: false,
-																				want:       "\":\"",
-																			},
-																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21171},
-																				label: "start",
-																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21178},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21178},
-																							run: (*parser).callonQuotedTextElement88,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21178},
-																								val:        "[A-Za-z]",
-																								ranges:     []rune{'A', 'Z', 'a', 'z'},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21232},
-																							run: (*parser).callonQuotedTextElement90,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21232},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21232},
-																									val:        "[0-9]",
-																									ranges:     []rune{'0', '9'},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																	},
+																pos: position{line: 659, col: 44, offset: 20906},
+																expr: &litMatcher{
+																	pos:        position{line: 659, col: 45, offset: 20907},
+																	val:        "2",
+																	ignoreCase: false,
+																	want:       "\"2\"",
 																},
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20888},
-															val:        "}",
-															ignoreCase: false,
-															want:       "\"}\"",
-														},
-													},
-												},
-											},
-											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 21006},
-												run: (*parser).callonQuotedTextElement94,
-												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 21006},
-													exprs: []interface{}{
-														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 21006},
-															val:        "{counter2:",
+															pos:        position{line: 659, col: 51, offset: 20913},
+															val:        ":",
 															ignoreCase: false,
-															want:       "\"{counter2:\"",
+															want:       "\":\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 21019},
+															pos:   position{line: 659, col: 55, offset: 20917},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9780},
-																run: (*parser).callonQuotedTextElement98,
+																run: (*parser).callonQuotedTextElement82,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9780},
 																	exprs: []interface{}{
@@ -41967,13 +40727,13 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 21038},
+															pos:   position{line: 659, col: 74, offset: 20936},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21044},
+																pos: position{line: 659, col: 80, offset: 20942},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21167},
-																	run: (*parser).callonQuotedTextElement105,
+																	run: (*parser).callonQuotedTextElement89,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21167},
 																		exprs: []interface{}{
@@ -41991,7 +40751,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21178},
-																							run: (*parser).callonQuotedTextElement110,
+																							run: (*parser).callonQuotedTextElement94,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21178},
 																								val:        "[A-Za-z]",
@@ -42002,7 +40762,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21232},
-																							run: (*parser).callonQuotedTextElement112,
+																							run: (*parser).callonQuotedTextElement96,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21232},
 																								expr: &charClassMatcher{
@@ -42023,7 +40783,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21060},
+															pos:        position{line: 659, col: 96, offset: 20958},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42039,13 +40799,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2888, col: 18, offset: 91249},
-						run: (*parser).callonQuotedTextElement116,
+						run: (*parser).callonQuotedTextElement100,
 						expr: &seqExpr{
 							pos: position{line: 2888, col: 18, offset: 91249},
 							exprs: []interface{}{
 								&actionExpr{
 									pos: position{line: 2884, col: 12, offset: 91149},
-									run: (*parser).callonQuotedTextElement118,
+									run: (*parser).callonQuotedTextElement102,
 									expr: &choiceExpr{
 										pos: position{line: 2884, col: 13, offset: 91150},
 										alternatives: []interface{}{
@@ -42074,7 +40834,7 @@ var g = &grammar{
 									pos: position{line: 2888, col: 26, offset: 91257},
 									expr: &actionExpr{
 										pos: position{line: 2884, col: 12, offset: 91149},
-										run: (*parser).callonQuotedTextElement124,
+										run: (*parser).callonQuotedTextElement108,
 										expr: &choiceExpr{
 											pos: position{line: 2884, col: 13, offset: 91150},
 											alternatives: []interface{}{
@@ -42113,20 +40873,20 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2469, col: 5, offset: 79438},
-						run: (*parser).callonQuotedTextElement131,
+						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
 							pos: position{line: 2469, col: 5, offset: 79438},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2469, col: 5, offset: 79438},
-									run: (*parser).callonQuotedTextElement133,
+									run: (*parser).callonQuotedTextElement117,
 								},
 								&labeledExpr{
 									pos:   position{line: 2472, col: 5, offset: 79514},
 									label: "element",
 									expr: &actionExpr{
 										pos: position{line: 2473, col: 9, offset: 79532},
-										run: (*parser).callonQuotedTextElement135,
+										run: (*parser).callonQuotedTextElement119,
 										expr: &charClassMatcher{
 											pos:        position{line: 2473, col: 10, offset: 79533},
 											val:        "[<>&]",
@@ -42141,7 +40901,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1198, col: 23, offset: 37016},
-						run: (*parser).callonQuotedTextElement137,
+						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
 							pos: position{line: 1198, col: 23, offset: 37016},
 							exprs: []interface{}{
@@ -42156,7 +40916,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1198, col: 56, offset: 37049},
-										run: (*parser).callonQuotedTextElement141,
+										run: (*parser).callonQuotedTextElement125,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1198, col: 56, offset: 37049},
 											expr: &charClassMatcher{
@@ -42180,7 +40940,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2814, col: 12, offset: 89286},
-						run: (*parser).callonQuotedTextElement145,
+						run: (*parser).callonQuotedTextElement129,
 						expr: &charClassMatcher{
 							pos:        position{line: 2814, col: 12, offset: 89286},
 							val:        "[^\\r\\n]",
@@ -43955,35 +42715,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											run: (*parser).callonSubscriptTextElement16,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20153},
+												pos: position{line: 636, col: 5, offset: 20157},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20153},
+														pos: position{line: 636, col: 5, offset: 20157},
 														run: (*parser).callonSubscriptTextElement18,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20225},
+														pos:   position{line: 639, col: 5, offset: 20229},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20234},
+															pos: position{line: 639, col: 14, offset: 20238},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	run: (*parser).callonSubscriptTextElement21,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20363},
+																		pos: position{line: 645, col: 5, offset: 20367},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20363},
+																				pos:        position{line: 645, col: 5, offset: 20367},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20371},
+																				pos:   position{line: 645, col: 13, offset: 20375},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -44015,7 +42775,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20390},
+																				pos:        position{line: 645, col: 32, offset: 20394},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -44024,19 +42784,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	run: (*parser).callonSubscriptTextElement31,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20631},
+																		pos: position{line: 652, col: 5, offset: 20635},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20631},
+																				pos:        position{line: 652, col: 5, offset: 20635},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20635},
+																				pos:   position{line: 652, col: 9, offset: 20639},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -44068,7 +42828,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20654},
+																				pos:        position{line: 652, col: 28, offset: 20658},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -44077,132 +42837,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	run: (*parser).callonSubscriptTextElement41,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20835},
+																		pos: position{line: 659, col: 21, offset: 20883},
 																		exprs: []interface{}{
+																			&zeroOrOneExpr{
+																				pos: position{line: 659, col: 21, offset: 20883},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 21, offset: 20883},
+																					val:        "\\",
+																					ignoreCase: false,
+																					want:       "\"\\\\\"",
+																				},
+																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20835},
-																				val:        "{counter:",
+																				pos:        position{line: 659, col: 26, offset: 20888},
+																				val:        "{counter",
 																				ignoreCase: false,
-																				want:       "\"{counter:\"",
-																			},
-																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20847},
-																				label: "name",
-																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonSubscriptTextElement45,
-																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9780},
-																						exprs: []interface{}{
-																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9780},
-																								val:        "[_\\pL\\pN]",
-																								chars:      []rune{'_'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9790},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 28, offset: 9790},
-																									val:        "[_-\\pL\\pN]",
-																									chars:      []rune{'_', '-'},
-																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																					},
-																				},
+																				want:       "\"{counter\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20866},
-																				label: "start",
+																				pos:   position{line: 659, col: 37, offset: 20899},
+																				label: "hidden",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20872},
-																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonSubscriptTextElement52,
-																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21167},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21167},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21171},
-																									label: "start",
-																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21178},
-																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonSubscriptTextElement57,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21178},
-																													val:        "[A-Za-z]",
-																													ranges:     []rune{'A', 'Z', 'a', 'z'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonSubscriptTextElement59,
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21232},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21232},
-																														val:        "[0-9]",
-																														ranges:     []rune{'0', '9'},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
+																					pos: position{line: 659, col: 44, offset: 20906},
+																					expr: &litMatcher{
+																						pos:        position{line: 659, col: 45, offset: 20907},
+																						val:        "2",
+																						ignoreCase: false,
+																						want:       "\"2\"",
 																					},
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20888},
-																				val:        "}",
-																				ignoreCase: false,
-																				want:       "\"}\"",
-																			},
-																		},
-																	},
-																},
-																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	run: (*parser).callonSubscriptTextElement63,
-																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21006},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21006},
-																				val:        "{counter2:",
+																				pos:        position{line: 659, col: 51, offset: 20913},
+																				val:        ":",
 																				ignoreCase: false,
-																				want:       "\"{counter2:\"",
+																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21019},
+																				pos:   position{line: 659, col: 55, offset: 20917},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonSubscriptTextElement67,
+																					run: (*parser).callonSubscriptTextElement51,
 																					expr: &seqExpr{
 																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
@@ -44230,13 +42909,13 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21038},
+																				pos:   position{line: 659, col: 74, offset: 20936},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21044},
+																					pos: position{line: 659, col: 80, offset: 20942},
 																					expr: &actionExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonSubscriptTextElement74,
+																						run: (*parser).callonSubscriptTextElement58,
 																						expr: &seqExpr{
 																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
@@ -44254,7 +42933,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonSubscriptTextElement79,
+																												run: (*parser).callonSubscriptTextElement63,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
@@ -44265,7 +42944,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonSubscriptTextElement81,
+																												run: (*parser).callonSubscriptTextElement65,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
@@ -44286,7 +42965,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21060},
+																				pos:        position{line: 659, col: 96, offset: 20958},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -44302,7 +42981,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2248, col: 7, offset: 72870},
-											run: (*parser).callonSubscriptTextElement85,
+											run: (*parser).callonSubscriptTextElement69,
 											expr: &charClassMatcher{
 												pos:        position{line: 2248, col: 7, offset: 72870},
 												val:        "[<>&{\\\\]",
@@ -44466,35 +43145,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											run: (*parser).callonSuperscriptTextElement16,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20153},
+												pos: position{line: 636, col: 5, offset: 20157},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20153},
+														pos: position{line: 636, col: 5, offset: 20157},
 														run: (*parser).callonSuperscriptTextElement18,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20225},
+														pos:   position{line: 639, col: 5, offset: 20229},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20234},
+															pos: position{line: 639, col: 14, offset: 20238},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	run: (*parser).callonSuperscriptTextElement21,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20363},
+																		pos: position{line: 645, col: 5, offset: 20367},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20363},
+																				pos:        position{line: 645, col: 5, offset: 20367},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20371},
+																				pos:   position{line: 645, col: 13, offset: 20375},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -44526,7 +43205,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20390},
+																				pos:        position{line: 645, col: 32, offset: 20394},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -44535,19 +43214,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	run: (*parser).callonSuperscriptTextElement31,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20631},
+																		pos: position{line: 652, col: 5, offset: 20635},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20631},
+																				pos:        position{line: 652, col: 5, offset: 20635},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20635},
+																				pos:   position{line: 652, col: 9, offset: 20639},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -44579,7 +43258,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20654},
+																				pos:        position{line: 652, col: 28, offset: 20658},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -44588,132 +43267,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	run: (*parser).callonSuperscriptTextElement41,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20835},
+																		pos: position{line: 659, col: 21, offset: 20883},
 																		exprs: []interface{}{
+																			&zeroOrOneExpr{
+																				pos: position{line: 659, col: 21, offset: 20883},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 21, offset: 20883},
+																					val:        "\\",
+																					ignoreCase: false,
+																					want:       "\"\\\\\"",
+																				},
+																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20835},
-																				val:        "{counter:",
+																				pos:        position{line: 659, col: 26, offset: 20888},
+																				val:        "{counter",
 																				ignoreCase: false,
-																				want:       "\"{counter:\"",
+																				want:       "\"{counter\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20847},
-																				label: "name",
-																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonSuperscriptTextElement45,
-																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9780},
-																						exprs: []interface{}{
-																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9780},
-																								val:        "[_\\pL\\pN]",
-																								chars:      []rune{'_'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9790},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 28, offset: 9790},
-																									val:        "[_-\\pL\\pN]",
-																									chars:      []rune{'_', '-'},
-																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20866},
-																				label: "start",
+																				pos:   position{line: 659, col: 37, offset: 20899},
+																				label: "hidden",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20872},
-																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonSuperscriptTextElement52,
-																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21167},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21167},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21171},
-																									label: "start",
-																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21178},
-																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonSuperscriptTextElement57,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21178},
-																													val:        "[A-Za-z]",
-																													ranges:     []rune{'A', 'Z', 'a', 'z'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonSuperscriptTextElement59,
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21232},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21232},
-																														val:        "[0-9]",
-																														ranges:     []rune{'0', '9'},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
+																					pos: position{line: 659, col: 44, offset: 20906},
+																					expr: &litMatcher{
+																						pos:        position{line: 659, col: 45, offset: 20907},
+																						val:        "2",
+																						ignoreCase: false,
+																						want:       "\"2\"",
 																					},
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20888},
-																				val:        "}",
-																				ignoreCase: false,
-																				want:       "\"}\"",
-																			},
-																		},
-																	},
-																},
-																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	run: (*parser).callonSuperscriptTextElement63,
-																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21006},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21006},
-																				val:        "{counter2:",
+																				pos:        position{line: 659, col: 51, offset: 20913},
+																				val:        ":",
 																				ignoreCase: false,
-																				want:       "\"{counter2:\"",
+																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21019},
+																				pos:   position{line: 659, col: 55, offset: 20917},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonSuperscriptTextElement67,
+																					run: (*parser).callonSuperscriptTextElement51,
 																					expr: &seqExpr{
 																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
@@ -44741,13 +43339,13 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21038},
+																				pos:   position{line: 659, col: 74, offset: 20936},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21044},
+																					pos: position{line: 659, col: 80, offset: 20942},
 																					expr: &actionExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonSuperscriptTextElement74,
+																						run: (*parser).callonSuperscriptTextElement58,
 																						expr: &seqExpr{
 																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
@@ -44765,7 +43363,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonSuperscriptTextElement79,
+																												run: (*parser).callonSuperscriptTextElement63,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
@@ -44776,7 +43374,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonSuperscriptTextElement81,
+																												run: (*parser).callonSuperscriptTextElement65,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
@@ -44797,7 +43395,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21060},
+																				pos:        position{line: 659, col: 96, offset: 20958},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -44813,7 +43411,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2284, col: 7, offset: 73939},
-											run: (*parser).callonSuperscriptTextElement85,
+											run: (*parser).callonSuperscriptTextElement69,
 											expr: &charClassMatcher{
 												pos:        position{line: 2284, col: 7, offset: 73939},
 												val:        "[<>&{\\\\]",
@@ -45326,35 +43924,35 @@ var g = &grammar{
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20153},
+										pos: position{line: 636, col: 5, offset: 20157},
 										run: (*parser).callonSectionTitleElement69,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20153},
+													pos: position{line: 636, col: 5, offset: 20157},
 													run: (*parser).callonSectionTitleElement71,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20225},
+													pos:   position{line: 639, col: 5, offset: 20229},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20234},
+														pos: position{line: 639, col: 14, offset: 20238},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20363},
+																pos: position{line: 645, col: 5, offset: 20367},
 																run: (*parser).callonSectionTitleElement74,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20363},
+																			pos:        position{line: 645, col: 5, offset: 20367},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20371},
+																			pos:   position{line: 645, col: 13, offset: 20375},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
@@ -45386,7 +43984,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20390},
+																			pos:        position{line: 645, col: 32, offset: 20394},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45395,19 +43993,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20631},
+																pos: position{line: 652, col: 5, offset: 20635},
 																run: (*parser).callonSectionTitleElement84,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20631},
+																			pos:        position{line: 652, col: 5, offset: 20635},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20635},
+																			pos:   position{line: 652, col: 9, offset: 20639},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
@@ -45439,7 +44037,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20654},
+																			pos:        position{line: 652, col: 28, offset: 20658},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45448,132 +44046,51 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20835},
+																pos: position{line: 659, col: 21, offset: 20883},
 																run: (*parser).callonSectionTitleElement94,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	exprs: []interface{}{
+																		&zeroOrOneExpr{
+																			pos: position{line: 659, col: 21, offset: 20883},
+																			expr: &litMatcher{
+																				pos:        position{line: 659, col: 21, offset: 20883},
+																				val:        "\\",
+																				ignoreCase: false,
+																				want:       "\"\\\\\"",
+																			},
+																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20835},
-																			val:        "{counter:",
+																			pos:        position{line: 659, col: 26, offset: 20888},
+																			val:        "{counter",
 																			ignoreCase: false,
-																			want:       "\"{counter:\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20847},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9780},
-																				run: (*parser).callonSectionTitleElement98,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9780},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9790},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 28, offset: 9790},
-																								val:        "[_-\\pL\\pN]",
-																								chars:      []rune{'_', '-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																				},
-																			},
+																			want:       "\"{counter\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20866},
-																			label: "start",
+																			pos:   position{line: 659, col: 37, offset: 20899},
+																			label: "hidden",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20872},
-																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21167},
-																					run: (*parser).callonSectionTitleElement105,
-																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21167},
-																								val:        ":",
-																								ignoreCase: false,
-																								want:       "\":\"",
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21171},
-																								label: "start",
-																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21178},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21178},
-																											run: (*parser).callonSectionTitleElement110,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21178},
-																												val:        "[A-Za-z]",
-																												ranges:     []rune{'A', 'Z', 'a', 'z'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21232},
-																											run: (*parser).callonSectionTitleElement112,
-																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21232},
-																													val:        "[0-9]",
-																													ranges:     []rune{'0', '9'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
+																				pos: position{line: 659, col: 44, offset: 20906},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 45, offset: 20907},
+																					val:        "2",
+																					ignoreCase: false,
+																					want:       "\"2\"",
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20888},
-																			val:        "}",
-																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
-																	},
-																},
-															},
-															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21006},
-																run: (*parser).callonSectionTitleElement116,
-																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21006},
-																			val:        "{counter2:",
+																			pos:        position{line: 659, col: 51, offset: 20913},
+																			val:        ":",
 																			ignoreCase: false,
-																			want:       "\"{counter2:\"",
+																			want:       "\":\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21019},
+																			pos:   position{line: 659, col: 55, offset: 20917},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9780},
-																				run: (*parser).callonSectionTitleElement120,
+																				run: (*parser).callonSectionTitleElement104,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
 																					exprs: []interface{}{
@@ -45601,13 +44118,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21038},
+																			pos:   position{line: 659, col: 74, offset: 20936},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21044},
+																				pos: position{line: 659, col: 80, offset: 20942},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21167},
-																					run: (*parser).callonSectionTitleElement127,
+																					run: (*parser).callonSectionTitleElement111,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
 																						exprs: []interface{}{
@@ -45625,7 +44142,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21178},
-																											run: (*parser).callonSectionTitleElement132,
+																											run: (*parser).callonSectionTitleElement116,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21178},
 																												val:        "[A-Za-z]",
@@ -45636,7 +44153,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21232},
-																											run: (*parser).callonSectionTitleElement134,
+																											run: (*parser).callonSectionTitleElement118,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
 																												expr: &charClassMatcher{
@@ -45657,7 +44174,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21060},
+																			pos:        position{line: 659, col: 96, offset: 20958},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45673,7 +44190,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1198, col: 23, offset: 37016},
-										run: (*parser).callonSectionTitleElement138,
+										run: (*parser).callonSectionTitleElement122,
 										expr: &seqExpr{
 											pos: position{line: 1198, col: 23, offset: 37016},
 											exprs: []interface{}{
@@ -45688,7 +44205,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1198, col: 56, offset: 37049},
-														run: (*parser).callonSectionTitleElement142,
+														run: (*parser).callonSectionTitleElement126,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1198, col: 56, offset: 37049},
 															expr: &charClassMatcher{
@@ -45712,20 +44229,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2352, col: 5, offset: 76092},
-										run: (*parser).callonSectionTitleElement146,
+										run: (*parser).callonSectionTitleElement130,
 										expr: &seqExpr{
 											pos: position{line: 2352, col: 5, offset: 76092},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2352, col: 5, offset: 76092},
-													run: (*parser).callonSectionTitleElement148,
+													run: (*parser).callonSectionTitleElement132,
 												},
 												&labeledExpr{
 													pos:   position{line: 2355, col: 5, offset: 76147},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12381},
-														run: (*parser).callonSectionTitleElement150,
+														run: (*parser).callonSectionTitleElement134,
 														expr: &seqExpr{
 															pos: position{line: 404, col: 5, offset: 12381},
 															exprs: []interface{}{
@@ -45740,7 +44257,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 406, col: 9, offset: 12404},
-																		run: (*parser).callonSectionTitleElement154,
+																		run: (*parser).callonSectionTitleElement138,
 																		expr: &labeledExpr{
 																			pos:   position{line: 406, col: 9, offset: 12404},
 																			label: "elements",
@@ -45751,7 +44268,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 407, col: 14, offset: 12428},
-																							run: (*parser).callonSectionTitleElement158,
+																							run: (*parser).callonSectionTitleElement142,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 407, col: 14, offset: 12428},
 																								expr: &charClassMatcher{
@@ -45765,7 +44282,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1198, col: 23, offset: 37016},
-																							run: (*parser).callonSectionTitleElement161,
+																							run: (*parser).callonSectionTitleElement145,
 																							expr: &seqExpr{
 																								pos: position{line: 1198, col: 23, offset: 37016},
 																								exprs: []interface{}{
@@ -45780,7 +44297,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1198, col: 56, offset: 37049},
-																											run: (*parser).callonSectionTitleElement165,
+																											run: (*parser).callonSectionTitleElement149,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1198, col: 56, offset: 37049},
 																												expr: &charClassMatcher{
@@ -45803,39 +44320,39 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20153},
-																							run: (*parser).callonSectionTitleElement169,
+																							pos: position{line: 636, col: 5, offset: 20157},
+																							run: (*parser).callonSectionTitleElement153,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20153},
+																								pos: position{line: 636, col: 5, offset: 20157},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20153},
-																										run: (*parser).callonSectionTitleElement171,
+																										pos: position{line: 636, col: 5, offset: 20157},
+																										run: (*parser).callonSectionTitleElement155,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20225},
+																										pos:   position{line: 639, col: 5, offset: 20229},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20234},
+																											pos: position{line: 639, col: 14, offset: 20238},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20363},
-																													run: (*parser).callonSectionTitleElement174,
+																													pos: position{line: 645, col: 5, offset: 20367},
+																													run: (*parser).callonSectionTitleElement158,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20363},
+																														pos: position{line: 645, col: 5, offset: 20367},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20363},
+																																pos:        position{line: 645, col: 5, offset: 20367},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20371},
+																																pos:   position{line: 645, col: 13, offset: 20375},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9780},
-																																	run: (*parser).callonSectionTitleElement178,
+																																	run: (*parser).callonSectionTitleElement162,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
@@ -45863,7 +44380,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20390},
+																																pos:        position{line: 645, col: 32, offset: 20394},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45872,23 +44389,23 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20631},
-																													run: (*parser).callonSectionTitleElement184,
+																													pos: position{line: 652, col: 5, offset: 20635},
+																													run: (*parser).callonSectionTitleElement168,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20631},
+																														pos: position{line: 652, col: 5, offset: 20635},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20631},
+																																pos:        position{line: 652, col: 5, offset: 20635},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20635},
+																																pos:   position{line: 652, col: 9, offset: 20639},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9780},
-																																	run: (*parser).callonSectionTitleElement188,
+																																	run: (*parser).callonSectionTitleElement172,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
@@ -45916,7 +44433,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20654},
+																																pos:        position{line: 652, col: 28, offset: 20658},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45925,132 +44442,51 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20835},
-																													run: (*parser).callonSectionTitleElement194,
+																													pos: position{line: 659, col: 21, offset: 20883},
+																													run: (*parser).callonSectionTitleElement178,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20835},
+																														pos: position{line: 659, col: 21, offset: 20883},
 																														exprs: []interface{}{
+																															&zeroOrOneExpr{
+																																pos: position{line: 659, col: 21, offset: 20883},
+																																expr: &litMatcher{
+																																	pos:        position{line: 659, col: 21, offset: 20883},
+																																	val:        "\\",
+																																	ignoreCase: false,
+																																	want:       "\"\\\\\"",
+																																},
+																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20835},
-																																val:        "{counter:",
+																																pos:        position{line: 659, col: 26, offset: 20888},
+																																val:        "{counter",
 																																ignoreCase: false,
-																																want:       "\"{counter:\"",
-																															},
-																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20847},
-																																label: "name",
-																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9780},
-																																	run: (*parser).callonSectionTitleElement198,
-																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9780},
-																																		exprs: []interface{}{
-																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9780},
-																																				val:        "[_\\pL\\pN]",
-																																				chars:      []rune{'_'},
-																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9790},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 28, offset: 9790},
-																																					val:        "[_-\\pL\\pN]",
-																																					chars:      []rune{'_', '-'},
-																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
+																																want:       "\"{counter\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20866},
-																																label: "start",
+																																pos:   position{line: 659, col: 37, offset: 20899},
+																																label: "hidden",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20872},
-																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21167},
-																																		run: (*parser).callonSectionTitleElement205,
-																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21167},
-																																			exprs: []interface{}{
-																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21167},
-																																					val:        ":",
-																																					ignoreCase: false,
-																																					want:       "\":\"",
-																																				},
-																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21171},
-																																					label: "start",
-																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21178},
-																																						alternatives: []interface{}{
-																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21178},
-																																								run: (*parser).callonSectionTitleElement210,
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21178},
-																																									val:        "[A-Za-z]",
-																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																									ignoreCase: false,
-																																									inverted:   false,
-																																								},
-																																							},
-																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21232},
-																																								run: (*parser).callonSectionTitleElement212,
-																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21232},
-																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21232},
-																																										val:        "[0-9]",
-																																										ranges:     []rune{'0', '9'},
-																																										ignoreCase: false,
-																																										inverted:   false,
-																																									},
-																																								},
-																																							},
-																																						},
-																																					},
-																																				},
-																																			},
-																																		},
+																																	pos: position{line: 659, col: 44, offset: 20906},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 659, col: 45, offset: 20907},
+																																		val:        "2",
+																																		ignoreCase: false,
+																																		want:       "\"2\"",
 																																	},
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20888},
-																																val:        "}",
-																																ignoreCase: false,
-																																want:       "\"}\"",
-																															},
-																														},
-																													},
-																												},
-																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 21006},
-																													run: (*parser).callonSectionTitleElement216,
-																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 21006},
-																														exprs: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 21006},
-																																val:        "{counter2:",
+																																pos:        position{line: 659, col: 51, offset: 20913},
+																																val:        ":",
 																																ignoreCase: false,
-																																want:       "\"{counter2:\"",
+																																want:       "\":\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 21019},
+																																pos:   position{line: 659, col: 55, offset: 20917},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9780},
-																																	run: (*parser).callonSectionTitleElement220,
+																																	run: (*parser).callonSectionTitleElement188,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9780},
 																																		exprs: []interface{}{
@@ -46078,13 +44514,13 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 21038},
+																																pos:   position{line: 659, col: 74, offset: 20936},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21044},
+																																	pos: position{line: 659, col: 80, offset: 20942},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21167},
-																																		run: (*parser).callonSectionTitleElement227,
+																																		run: (*parser).callonSectionTitleElement195,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21167},
 																																			exprs: []interface{}{
@@ -46102,7 +44538,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21178},
-																																								run: (*parser).callonSectionTitleElement232,
+																																								run: (*parser).callonSectionTitleElement200,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21178},
 																																									val:        "[A-Za-z]",
@@ -46113,7 +44549,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21232},
-																																								run: (*parser).callonSectionTitleElement234,
+																																								run: (*parser).callonSectionTitleElement202,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21232},
 																																									expr: &charClassMatcher{
@@ -46134,7 +44570,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21060},
+																																pos:        position{line: 659, col: 96, offset: 20958},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46150,7 +44586,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 412, col: 16, offset: 12661},
-																							run: (*parser).callonSectionTitleElement238,
+																							run: (*parser).callonSectionTitleElement206,
 																							expr: &litMatcher{
 																								pos:        position{line: 412, col: 16, offset: 12661},
 																								val:        "{",
@@ -46178,7 +44614,7 @@ var g = &grammar{
 													pos: position{line: 2355, col: 26, offset: 76168},
 													expr: &actionExpr{
 														pos: position{line: 2875, col: 10, offset: 90978},
-														run: (*parser).callonSectionTitleElement242,
+														run: (*parser).callonSectionTitleElement210,
 														expr: &charClassMatcher{
 															pos:        position{line: 2875, col: 10, offset: 90978},
 															val:        "[\\t ]",
@@ -46195,7 +44631,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2884, col: 12, offset: 91149},
-																run: (*parser).callonSectionTitleElement246,
+																run: (*parser).callonSectionTitleElement214,
 																expr: &choiceExpr{
 																	pos: position{line: 2884, col: 13, offset: 91150},
 																	alternatives: []interface{}{
@@ -46234,7 +44670,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1253, col: 5, offset: 38776},
-										run: (*parser).callonSectionTitleElement253,
+										run: (*parser).callonSectionTitleElement221,
 										expr: &seqExpr{
 											pos: position{line: 1253, col: 5, offset: 38776},
 											exprs: []interface{}{
@@ -46249,7 +44685,7 @@ var g = &grammar{
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 2860, col: 7, offset: 90630},
-														run: (*parser).callonSectionTitleElement257,
+														run: (*parser).callonSectionTitleElement225,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 2860, col: 7, offset: 90630},
 															expr: &charClassMatcher{
@@ -46273,7 +44709,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1258, col: 5, offset: 38912},
-										run: (*parser).callonSectionTitleElement261,
+										run: (*parser).callonSectionTitleElement229,
 										expr: &seqExpr{
 											pos: position{line: 1258, col: 5, offset: 38912},
 											exprs: []interface{}{
@@ -46288,7 +44724,7 @@ var g = &grammar{
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 2860, col: 7, offset: 90630},
-														run: (*parser).callonSectionTitleElement265,
+														run: (*parser).callonSectionTitleElement233,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 2860, col: 7, offset: 90630},
 															expr: &charClassMatcher{
@@ -46316,7 +44752,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2814, col: 12, offset: 89286},
-										run: (*parser).callonSectionTitleElement270,
+										run: (*parser).callonSectionTitleElement238,
 										expr: &charClassMatcher{
 											pos:        position{line: 2814, col: 12, offset: 89286},
 											val:        "[^\\r\\n]",
@@ -46611,35 +45047,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20153},
+															pos: position{line: 636, col: 5, offset: 20157},
 															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20153},
+																pos: position{line: 636, col: 5, offset: 20157},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20153},
+																		pos: position{line: 636, col: 5, offset: 20157},
 																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20225},
+																		pos:   position{line: 639, col: 5, offset: 20229},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20234},
+																			pos: position{line: 639, col: 14, offset: 20238},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20363},
+																					pos: position{line: 645, col: 5, offset: 20367},
 																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20363},
+																						pos: position{line: 645, col: 5, offset: 20367},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20363},
+																								pos:        position{line: 645, col: 5, offset: 20367},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20371},
+																								pos:   position{line: 645, col: 13, offset: 20375},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
@@ -46671,7 +45107,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20390},
+																								pos:        position{line: 645, col: 32, offset: 20394},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46680,19 +45116,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20631},
+																					pos: position{line: 652, col: 5, offset: 20635},
 																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20631},
+																						pos: position{line: 652, col: 5, offset: 20635},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20631},
+																								pos:        position{line: 652, col: 5, offset: 20635},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20635},
+																								pos:   position{line: 652, col: 9, offset: 20639},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
@@ -46724,7 +45160,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20654},
+																								pos:        position{line: 652, col: 28, offset: 20658},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46733,132 +45169,51 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20835},
+																					pos: position{line: 659, col: 21, offset: 20883},
 																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20835},
+																						pos: position{line: 659, col: 21, offset: 20883},
 																						exprs: []interface{}{
+																							&zeroOrOneExpr{
+																								pos: position{line: 659, col: 21, offset: 20883},
+																								expr: &litMatcher{
+																									pos:        position{line: 659, col: 21, offset: 20883},
+																									val:        "\\",
+																									ignoreCase: false,
+																									want:       "\"\\\\\"",
+																								},
+																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20835},
-																								val:        "{counter:",
+																								pos:        position{line: 659, col: 26, offset: 20888},
+																								val:        "{counter",
 																								ignoreCase: false,
-																								want:       "\"{counter:\"",
+																								want:       "\"{counter\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20847},
-																								label: "name",
-																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9780},
-																									run: (*parser).callonNormalGroup90,
-																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9780},
-																										exprs: []interface{}{
-																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9780},
-																												val:        "[_\\pL\\pN]",
-																												chars:      []rune{'_'},
-																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9790},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 28, offset: 9790},
-																													val:        "[_-\\pL\\pN]",
-																													chars:      []rune{'_', '-'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20866},
-																								label: "start",
+																								pos:   position{line: 659, col: 37, offset: 20899},
+																								label: "hidden",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20872},
-																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21167},
-																										run: (*parser).callonNormalGroup97,
-																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21167},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21167},
-																													val:        ":",
-																													ignoreCase: false,
-																													want:       "\":\"",
-																												},
-																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21171},
-																													label: "start",
-																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21178},
-																														alternatives: []interface{}{
-																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21178},
-																																run: (*parser).callonNormalGroup102,
-																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21178},
-																																	val:        "[A-Za-z]",
-																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																	ignoreCase: false,
-																																	inverted:   false,
-																																},
-																															},
-																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21232},
-																																run: (*parser).callonNormalGroup104,
-																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21232},
-																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21232},
-																																		val:        "[0-9]",
-																																		ranges:     []rune{'0', '9'},
-																																		ignoreCase: false,
-																																		inverted:   false,
-																																	},
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																										},
+																									pos: position{line: 659, col: 44, offset: 20906},
+																									expr: &litMatcher{
+																										pos:        position{line: 659, col: 45, offset: 20907},
+																										val:        "2",
+																										ignoreCase: false,
+																										want:       "\"2\"",
 																									},
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20888},
-																								val:        "}",
-																								ignoreCase: false,
-																								want:       "\"}\"",
-																							},
-																						},
-																					},
-																				},
-																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 21006},
-																					run: (*parser).callonNormalGroup108,
-																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 21006},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 21006},
-																								val:        "{counter2:",
+																								pos:        position{line: 659, col: 51, offset: 20913},
+																								val:        ":",
 																								ignoreCase: false,
-																								want:       "\"{counter2:\"",
+																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 21019},
+																								pos:   position{line: 659, col: 55, offset: 20917},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9780},
-																									run: (*parser).callonNormalGroup112,
+																									run: (*parser).callonNormalGroup96,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9780},
 																										exprs: []interface{}{
@@ -46886,13 +45241,13 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21038},
+																								pos:   position{line: 659, col: 74, offset: 20936},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21044},
+																									pos: position{line: 659, col: 80, offset: 20942},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21167},
-																										run: (*parser).callonNormalGroup119,
+																										run: (*parser).callonNormalGroup103,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21167},
 																											exprs: []interface{}{
@@ -46910,7 +45265,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21178},
-																																run: (*parser).callonNormalGroup124,
+																																run: (*parser).callonNormalGroup108,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21178},
 																																	val:        "[A-Za-z]",
@@ -46921,7 +45276,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21232},
-																																run: (*parser).callonNormalGroup126,
+																																run: (*parser).callonNormalGroup110,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21232},
 																																	expr: &charClassMatcher{
@@ -46942,7 +45297,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21060},
+																								pos:        position{line: 659, col: 96, offset: 20958},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46974,20 +45329,20 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2469, col: 5, offset: 79438},
-															run: (*parser).callonNormalGroup134,
+															run: (*parser).callonNormalGroup118,
 															expr: &seqExpr{
 																pos: position{line: 2469, col: 5, offset: 79438},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2469, col: 5, offset: 79438},
-																		run: (*parser).callonNormalGroup136,
+																		run: (*parser).callonNormalGroup120,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 2472, col: 5, offset: 79514},
 																		label: "element",
 																		expr: &actionExpr{
 																			pos: position{line: 2473, col: 9, offset: 79532},
-																			run: (*parser).callonNormalGroup138,
+																			run: (*parser).callonNormalGroup122,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2473, col: 10, offset: 79533},
 																				val:        "[<>&]",
@@ -47002,13 +45357,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1206, col: 5, offset: 37462},
-															run: (*parser).callonNormalGroup140,
+															run: (*parser).callonNormalGroup124,
 															expr: &seqExpr{
 																pos: position{line: 1206, col: 5, offset: 37462},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1206, col: 5, offset: 37462},
-																		run: (*parser).callonNormalGroup142,
+																		run: (*parser).callonNormalGroup126,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1209, col: 5, offset: 37538},
@@ -47018,13 +45373,13 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1210, col: 5, offset: 37546},
-																		run: (*parser).callonNormalGroup144,
+																		run: (*parser).callonNormalGroup128,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37633},
 																		expr: &actionExpr{
 																			pos: position{line: 2875, col: 10, offset: 90978},
-																			run: (*parser).callonNormalGroup146,
+																			run: (*parser).callonNormalGroup130,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2875, col: 10, offset: 90978},
 																				val:        "[\\t ]",
@@ -47041,7 +45396,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2884, col: 12, offset: 91149},
-																					run: (*parser).callonNormalGroup150,
+																					run: (*parser).callonNormalGroup134,
 																					expr: &choiceExpr{
 																						pos: position{line: 2884, col: 13, offset: 91150},
 																						alternatives: []interface{}{
@@ -47080,7 +45435,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1198, col: 23, offset: 37016},
-															run: (*parser).callonNormalGroup157,
+															run: (*parser).callonNormalGroup141,
 															expr: &seqExpr{
 																pos: position{line: 1198, col: 23, offset: 37016},
 																exprs: []interface{}{
@@ -47095,7 +45450,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1198, col: 56, offset: 37049},
-																			run: (*parser).callonNormalGroup161,
+																			run: (*parser).callonNormalGroup145,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1198, col: 56, offset: 37049},
 																				expr: &charClassMatcher{
@@ -47119,7 +45474,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2814, col: 12, offset: 89286},
-															run: (*parser).callonNormalGroup165,
+															run: (*parser).callonNormalGroup149,
 															expr: &charClassMatcher{
 																pos:        position{line: 2814, col: 12, offset: 89286},
 																val:        "[^\\r\\n]",
@@ -49446,35 +47801,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20153},
+											pos: position{line: 636, col: 5, offset: 20157},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20153},
+												pos: position{line: 636, col: 5, offset: 20157},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20153},
+														pos: position{line: 636, col: 5, offset: 20157},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20225},
+														pos:   position{line: 639, col: 5, offset: 20229},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20234},
+															pos: position{line: 639, col: 14, offset: 20238},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20363},
+																	pos: position{line: 645, col: 5, offset: 20367},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20363},
+																		pos: position{line: 645, col: 5, offset: 20367},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20363},
+																				pos:        position{line: 645, col: 5, offset: 20367},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20371},
+																				pos:   position{line: 645, col: 13, offset: 20375},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -49506,7 +47861,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20390},
+																				pos:        position{line: 645, col: 32, offset: 20394},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49515,19 +47870,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20631},
+																	pos: position{line: 652, col: 5, offset: 20635},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20631},
+																		pos: position{line: 652, col: 5, offset: 20635},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20631},
+																				pos:        position{line: 652, col: 5, offset: 20635},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20635},
+																				pos:   position{line: 652, col: 9, offset: 20639},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
@@ -49559,7 +47914,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20654},
+																				pos:        position{line: 652, col: 28, offset: 20658},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49568,132 +47923,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20835},
+																	pos: position{line: 659, col: 21, offset: 20883},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20835},
+																		pos: position{line: 659, col: 21, offset: 20883},
 																		exprs: []interface{}{
+																			&zeroOrOneExpr{
+																				pos: position{line: 659, col: 21, offset: 20883},
+																				expr: &litMatcher{
+																					pos:        position{line: 659, col: 21, offset: 20883},
+																					val:        "\\",
+																					ignoreCase: false,
+																					want:       "\"\\\\\"",
+																				},
+																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20835},
-																				val:        "{counter:",
+																				pos:        position{line: 659, col: 26, offset: 20888},
+																				val:        "{counter",
 																				ignoreCase: false,
-																				want:       "\"{counter:\"",
-																			},
-																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20847},
-																				label: "name",
-																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonFileLocation52,
-																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9780},
-																						exprs: []interface{}{
-																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9780},
-																								val:        "[_\\pL\\pN]",
-																								chars:      []rune{'_'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9790},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 28, offset: 9790},
-																									val:        "[_-\\pL\\pN]",
-																									chars:      []rune{'_', '-'},
-																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																					},
-																				},
+																				want:       "\"{counter\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20866},
-																				label: "start",
+																				pos:   position{line: 659, col: 37, offset: 20899},
+																				label: "hidden",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20872},
-																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonFileLocation59,
-																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21167},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21167},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21171},
-																									label: "start",
-																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21178},
-																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonFileLocation64,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21178},
-																													val:        "[A-Za-z]",
-																													ranges:     []rune{'A', 'Z', 'a', 'z'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonFileLocation66,
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21232},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21232},
-																														val:        "[0-9]",
-																														ranges:     []rune{'0', '9'},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																						},
+																					pos: position{line: 659, col: 44, offset: 20906},
+																					expr: &litMatcher{
+																						pos:        position{line: 659, col: 45, offset: 20907},
+																						val:        "2",
+																						ignoreCase: false,
+																						want:       "\"2\"",
 																					},
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20888},
-																				val:        "}",
-																				ignoreCase: false,
-																				want:       "\"}\"",
-																			},
-																		},
-																	},
-																},
-																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21006},
-																	run: (*parser).callonFileLocation70,
-																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21006},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21006},
-																				val:        "{counter2:",
+																				pos:        position{line: 659, col: 51, offset: 20913},
+																				val:        ":",
 																				ignoreCase: false,
-																				want:       "\"{counter2:\"",
+																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21019},
+																				pos:   position{line: 659, col: 55, offset: 20917},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9780},
-																					run: (*parser).callonFileLocation74,
+																					run: (*parser).callonFileLocation58,
 																					expr: &seqExpr{
 																						pos: position{line: 318, col: 18, offset: 9780},
 																						exprs: []interface{}{
@@ -49721,13 +47995,13 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21038},
+																				pos:   position{line: 659, col: 74, offset: 20936},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21044},
+																					pos: position{line: 659, col: 80, offset: 20942},
 																					expr: &actionExpr{
 																						pos: position{line: 666, col: 17, offset: 21167},
-																						run: (*parser).callonFileLocation81,
+																						run: (*parser).callonFileLocation65,
 																						expr: &seqExpr{
 																							pos: position{line: 666, col: 17, offset: 21167},
 																							exprs: []interface{}{
@@ -49745,7 +48019,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 666, col: 28, offset: 21178},
-																												run: (*parser).callonFileLocation86,
+																												run: (*parser).callonFileLocation70,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 666, col: 28, offset: 21178},
 																													val:        "[A-Za-z]",
@@ -49756,7 +48030,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 668, col: 9, offset: 21232},
-																												run: (*parser).callonFileLocation88,
+																												run: (*parser).callonFileLocation72,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 668, col: 9, offset: 21232},
 																													expr: &charClassMatcher{
@@ -49777,7 +48051,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21060},
+																				pos:        position{line: 659, col: 96, offset: 20958},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49793,7 +48067,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1198, col: 23, offset: 37016},
-											run: (*parser).callonFileLocation92,
+											run: (*parser).callonFileLocation76,
 											expr: &seqExpr{
 												pos: position{line: 1198, col: 23, offset: 37016},
 												exprs: []interface{}{
@@ -49808,7 +48082,7 @@ var g = &grammar{
 														label: "ref",
 														expr: &actionExpr{
 															pos: position{line: 1198, col: 56, offset: 37049},
-															run: (*parser).callonFileLocation96,
+															run: (*parser).callonFileLocation80,
 															expr: &oneOrMoreExpr{
 																pos: position{line: 1198, col: 56, offset: 37049},
 																expr: &charClassMatcher{
@@ -49832,7 +48106,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2854, col: 11, offset: 90493},
-											run: (*parser).callonFileLocation100,
+											run: (*parser).callonFileLocation84,
 											expr: &litMatcher{
 												pos:        position{line: 2854, col: 11, offset: 90493},
 												val:        "{",
@@ -51302,114 +49576,62 @@ func (p *parser) callonFileInclusion45() (interface{}, error) {
 	return p.cur.onFileInclusion45(stack["name"])
 }
 
-func (c *current) onFileInclusion59() (interface{}, error) {
+func (c *current) onFileInclusion65() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion59() (interface{}, error) {
+func (p *parser) callonFileInclusion65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion59()
+	return p.cur.onFileInclusion65()
 }
 
-func (c *current) onFileInclusion71() (interface{}, error) {
+func (c *current) onFileInclusion77() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion71() (interface{}, error) {
+func (p *parser) callonFileInclusion77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion71()
+	return p.cur.onFileInclusion77()
 }
 
-func (c *current) onFileInclusion73() (interface{}, error) {
+func (c *current) onFileInclusion79() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFileInclusion73() (interface{}, error) {
+func (p *parser) callonFileInclusion79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion73()
+	return p.cur.onFileInclusion79()
 }
 
-func (c *current) onFileInclusion66(start interface{}) (interface{}, error) {
+func (c *current) onFileInclusion72(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFileInclusion66() (interface{}, error) {
+func (p *parser) callonFileInclusion72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion66(stack["start"])
+	return p.cur.onFileInclusion72(stack["start"])
 }
 
-func (c *current) onFileInclusion55(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onFileInclusion55(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonFileInclusion55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion55(stack["name"], stack["start"])
-}
-
-func (c *current) onFileInclusion81() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonFileInclusion81() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileInclusion81()
-}
-
-func (c *current) onFileInclusion93() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonFileInclusion93() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileInclusion93()
-}
-
-func (c *current) onFileInclusion95() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonFileInclusion95() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileInclusion95()
-}
-
-func (c *current) onFileInclusion88(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonFileInclusion88() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileInclusion88(stack["start"])
-}
-
-func (c *current) onFileInclusion77(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonFileInclusion77() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileInclusion77(stack["name"], stack["start"])
+	return p.cur.onFileInclusion55(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onFileInclusion30(element interface{}) (interface{}, error) {
@@ -51423,35 +49645,35 @@ func (p *parser) callonFileInclusion30() (interface{}, error) {
 	return p.cur.onFileInclusion30(stack["element"])
 }
 
-func (c *current) onFileInclusion103() (interface{}, error) {
+func (c *current) onFileInclusion87() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonFileInclusion103() (interface{}, error) {
+func (p *parser) callonFileInclusion87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion103()
+	return p.cur.onFileInclusion87()
 }
 
-func (c *current) onFileInclusion99(ref interface{}) (interface{}, error) {
+func (c *current) onFileInclusion83(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonFileInclusion99() (interface{}, error) {
+func (p *parser) callonFileInclusion83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion99(stack["ref"])
+	return p.cur.onFileInclusion83(stack["ref"])
 }
 
-func (c *current) onFileInclusion107() (interface{}, error) {
+func (c *current) onFileInclusion91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion107() (interface{}, error) {
+func (p *parser) callonFileInclusion91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion107()
+	return p.cur.onFileInclusion91()
 }
 
 func (c *current) onFileInclusion10(elements interface{}) (interface{}, error) {
@@ -51488,27 +49710,27 @@ func (p *parser) callonFileInclusion4() (interface{}, error) {
 	return p.cur.onFileInclusion4(stack["path"], stack["attributes"])
 }
 
-func (c *current) onFileInclusion112() (interface{}, error) {
+func (c *current) onFileInclusion96() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion112() (interface{}, error) {
+func (p *parser) callonFileInclusion96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion112()
+	return p.cur.onFileInclusion96()
 }
 
-func (c *current) onFileInclusion115() (interface{}, error) {
+func (c *current) onFileInclusion99() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFileInclusion115() (interface{}, error) {
+func (p *parser) callonFileInclusion99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion115()
+	return p.cur.onFileInclusion99()
 }
 
 func (c *current) onFileInclusion1(incl interface{}) (interface{}, error) {
@@ -55688,114 +53910,62 @@ func (p *parser) callonAttributeDeclarationValueElement47() (interface{}, error)
 	return p.cur.onAttributeDeclarationValueElement47(stack["name"])
 }
 
-func (c *current) onAttributeDeclarationValueElement61() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement67() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement61() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement61()
+	return p.cur.onAttributeDeclarationValueElement67()
 }
 
-func (c *current) onAttributeDeclarationValueElement73() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement79() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement73() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement73()
+	return p.cur.onAttributeDeclarationValueElement79()
 }
 
-func (c *current) onAttributeDeclarationValueElement75() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement81() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement75() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement75()
+	return p.cur.onAttributeDeclarationValueElement81()
 }
 
-func (c *current) onAttributeDeclarationValueElement68(start interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement74(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement68() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement68(stack["start"])
+	return p.cur.onAttributeDeclarationValueElement74(stack["start"])
 }
 
-func (c *current) onAttributeDeclarationValueElement57(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onAttributeDeclarationValueElement57(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonAttributeDeclarationValueElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement57(stack["name"], stack["start"])
-}
-
-func (c *current) onAttributeDeclarationValueElement83() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonAttributeDeclarationValueElement83() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onAttributeDeclarationValueElement83()
-}
-
-func (c *current) onAttributeDeclarationValueElement95() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonAttributeDeclarationValueElement95() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onAttributeDeclarationValueElement95()
-}
-
-func (c *current) onAttributeDeclarationValueElement97() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonAttributeDeclarationValueElement97() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onAttributeDeclarationValueElement97()
-}
-
-func (c *current) onAttributeDeclarationValueElement90(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonAttributeDeclarationValueElement90() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onAttributeDeclarationValueElement90(stack["start"])
-}
-
-func (c *current) onAttributeDeclarationValueElement79(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onAttributeDeclarationValueElement79(stack["name"], stack["start"])
+	return p.cur.onAttributeDeclarationValueElement57(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onAttributeDeclarationValueElement32(element interface{}) (interface{}, error) {
@@ -55915,114 +54085,62 @@ func (p *parser) callonBlockAttributes42() (interface{}, error) {
 	return p.cur.onBlockAttributes42(stack["name"])
 }
 
-func (c *current) onBlockAttributes56() (interface{}, error) {
+func (c *current) onBlockAttributes62() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes56() (interface{}, error) {
+func (p *parser) callonBlockAttributes62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes56()
+	return p.cur.onBlockAttributes62()
 }
 
-func (c *current) onBlockAttributes68() (interface{}, error) {
+func (c *current) onBlockAttributes74() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes68() (interface{}, error) {
+func (p *parser) callonBlockAttributes74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes68()
+	return p.cur.onBlockAttributes74()
 }
 
-func (c *current) onBlockAttributes70() (interface{}, error) {
+func (c *current) onBlockAttributes76() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes70() (interface{}, error) {
+func (p *parser) callonBlockAttributes76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes70()
+	return p.cur.onBlockAttributes76()
 }
 
-func (c *current) onBlockAttributes63(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes69(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes63() (interface{}, error) {
+func (p *parser) callonBlockAttributes69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes63(stack["start"])
+	return p.cur.onBlockAttributes69(stack["start"])
 }
 
-func (c *current) onBlockAttributes52(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onBlockAttributes52(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonBlockAttributes52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes52(stack["name"], stack["start"])
-}
-
-func (c *current) onBlockAttributes78() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonBlockAttributes78() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onBlockAttributes78()
-}
-
-func (c *current) onBlockAttributes90() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonBlockAttributes90() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onBlockAttributes90()
-}
-
-func (c *current) onBlockAttributes92() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonBlockAttributes92() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onBlockAttributes92()
-}
-
-func (c *current) onBlockAttributes85(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonBlockAttributes85() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onBlockAttributes85(stack["start"])
-}
-
-func (c *current) onBlockAttributes74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonBlockAttributes74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onBlockAttributes74(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes52(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onBlockAttributes27(element interface{}) (interface{}, error) {
@@ -56036,16 +54154,16 @@ func (p *parser) callonBlockAttributes27() (interface{}, error) {
 	return p.cur.onBlockAttributes27(stack["element"])
 }
 
-func (c *current) onBlockAttributes96() (interface{}, error) {
+func (c *current) onBlockAttributes80() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes96() (interface{}, error) {
+func (p *parser) callonBlockAttributes80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes96()
+	return p.cur.onBlockAttributes80()
 }
 
 func (c *current) onBlockAttributes12(elements interface{}) (interface{}, error) {
@@ -56070,61 +54188,61 @@ func (p *parser) callonBlockAttributes8() (interface{}, error) {
 	return p.cur.onBlockAttributes8(stack["id"])
 }
 
-func (c *current) onBlockAttributes100() (interface{}, error) {
+func (c *current) onBlockAttributes84() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes100() (interface{}, error) {
+func (p *parser) callonBlockAttributes84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes100()
+	return p.cur.onBlockAttributes84()
 }
 
-func (c *current) onBlockAttributes103() (interface{}, error) {
+func (c *current) onBlockAttributes87() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes103() (interface{}, error) {
+func (p *parser) callonBlockAttributes87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes103()
+	return p.cur.onBlockAttributes87()
 }
 
-func (c *current) onBlockAttributes116() (interface{}, error) {
+func (c *current) onBlockAttributes100() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes116() (interface{}, error) {
+func (p *parser) callonBlockAttributes100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes116()
+	return p.cur.onBlockAttributes100()
 }
 
-func (c *current) onBlockAttributes119() (interface{}, error) {
+func (c *current) onBlockAttributes103() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes119() (interface{}, error) {
+func (p *parser) callonBlockAttributes103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes119()
+	return p.cur.onBlockAttributes103()
 }
 
-func (c *current) onBlockAttributes111() (interface{}, error) {
+func (c *current) onBlockAttributes95() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes111() (interface{}, error) {
+func (p *parser) callonBlockAttributes95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes111()
+	return p.cur.onBlockAttributes95()
 }
 
 func (c *current) onBlockAttributes5(anchor interface{}) (interface{}, error) {
@@ -56138,78 +54256,78 @@ func (p *parser) callonBlockAttributes5() (interface{}, error) {
 	return p.cur.onBlockAttributes5(stack["anchor"])
 }
 
-func (c *current) onBlockAttributes137() (interface{}, error) {
+func (c *current) onBlockAttributes121() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes137() (interface{}, error) {
+func (p *parser) callonBlockAttributes121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes137()
+	return p.cur.onBlockAttributes121()
 }
 
-func (c *current) onBlockAttributes140() (interface{}, error) {
+func (c *current) onBlockAttributes124() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes140() (interface{}, error) {
+func (p *parser) callonBlockAttributes124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes140()
+	return p.cur.onBlockAttributes124()
 }
 
-func (c *current) onBlockAttributes146() (bool, error) {
+func (c *current) onBlockAttributes130() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes146() (bool, error) {
+func (p *parser) callonBlockAttributes130() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes146()
+	return p.cur.onBlockAttributes130()
 }
 
-func (c *current) onBlockAttributes150() (bool, error) {
+func (c *current) onBlockAttributes134() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes150() (bool, error) {
+func (p *parser) callonBlockAttributes134() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes150()
+	return p.cur.onBlockAttributes134()
 }
 
-func (c *current) onBlockAttributes142() (interface{}, error) {
+func (c *current) onBlockAttributes126() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes142() (interface{}, error) {
+func (p *parser) callonBlockAttributes126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes142()
+	return p.cur.onBlockAttributes126()
 }
 
-func (c *current) onBlockAttributes160() (interface{}, error) {
+func (c *current) onBlockAttributes144() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes160() (interface{}, error) {
+func (p *parser) callonBlockAttributes144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes160()
+	return p.cur.onBlockAttributes144()
 }
 
-func (c *current) onBlockAttributes156(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes140(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -56217,10 +54335,33 @@ func (c *current) onBlockAttributes156(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes156() (interface{}, error) {
+func (p *parser) callonBlockAttributes140() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes140(stack["name"])
+}
+
+func (c *current) onBlockAttributes154() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes154() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes154()
+}
+
+func (c *current) onBlockAttributes150(name interface{}) (interface{}, error) {
+
+	return types.NewAttributeReference(name.(string), string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes156(stack["name"])
+	return p.cur.onBlockAttributes150(stack["name"])
 }
 
 func (c *current) onBlockAttributes170() (interface{}, error) {
@@ -56234,19 +54375,54 @@ func (p *parser) callonBlockAttributes170() (interface{}, error) {
 	return p.cur.onBlockAttributes170()
 }
 
-func (c *current) onBlockAttributes166(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes182() (interface{}, error) {
+	return string(c.text), nil
 
-	return types.NewAttributeReference(name.(string), string(c.text))
+}
+
+func (p *parser) callonBlockAttributes182() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes182()
+}
+
+func (c *current) onBlockAttributes184() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes166() (interface{}, error) {
+func (p *parser) callonBlockAttributes184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes166(stack["name"])
+	return p.cur.onBlockAttributes184()
 }
 
-func (c *current) onBlockAttributes176() (interface{}, error) {
+func (c *current) onBlockAttributes177(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes177() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes177(stack["start"])
+}
+
+func (c *current) onBlockAttributes160(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes160() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes160(stack["hidden"], stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes188() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -56255,157 +54431,157 @@ func (c *current) onBlockAttributes176() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes176() (interface{}, error) {
+func (p *parser) callonBlockAttributes188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes176()
+	return p.cur.onBlockAttributes188()
 }
 
-func (c *current) onBlockAttributes129(elements interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes113(elements interface{}) (interface{}, error) {
 	return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
 
 }
 
-func (p *parser) callonBlockAttributes129() (interface{}, error) {
+func (p *parser) callonBlockAttributes113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes129(stack["elements"])
+	return p.cur.onBlockAttributes113(stack["elements"])
 }
 
-func (c *current) onBlockAttributes179() (interface{}, error) {
+func (c *current) onBlockAttributes191() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes179() (interface{}, error) {
+func (p *parser) callonBlockAttributes191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes179()
+	return p.cur.onBlockAttributes191()
 }
 
-func (c *current) onBlockAttributes182() (interface{}, error) {
+func (c *current) onBlockAttributes194() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes182() (interface{}, error) {
+func (p *parser) callonBlockAttributes194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes182()
+	return p.cur.onBlockAttributes194()
 }
 
-func (c *current) onBlockAttributes195() (interface{}, error) {
+func (c *current) onBlockAttributes207() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes195() (interface{}, error) {
+func (p *parser) callonBlockAttributes207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes195()
+	return p.cur.onBlockAttributes207()
 }
 
-func (c *current) onBlockAttributes198() (interface{}, error) {
+func (c *current) onBlockAttributes210() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes198() (interface{}, error) {
+func (p *parser) callonBlockAttributes210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes198()
+	return p.cur.onBlockAttributes210()
 }
 
-func (c *current) onBlockAttributes190() (interface{}, error) {
+func (c *current) onBlockAttributes202() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes190() (interface{}, error) {
+func (p *parser) callonBlockAttributes202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes190()
+	return p.cur.onBlockAttributes202()
 }
 
-func (c *current) onBlockAttributes126(title interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes110(title interface{}) (interface{}, error) {
 	return title, nil
 
 }
 
-func (p *parser) callonBlockAttributes126() (interface{}, error) {
+func (p *parser) callonBlockAttributes110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes126(stack["title"])
+	return p.cur.onBlockAttributes110(stack["title"])
 }
 
-func (c *current) onBlockAttributes210() (interface{}, error) {
+func (c *current) onBlockAttributes222() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes210() (interface{}, error) {
+func (p *parser) callonBlockAttributes222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes210()
+	return p.cur.onBlockAttributes222()
 }
 
-func (c *current) onBlockAttributes213() (interface{}, error) {
+func (c *current) onBlockAttributes225() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes213() (interface{}, error) {
+func (p *parser) callonBlockAttributes225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes213()
+	return p.cur.onBlockAttributes225()
 }
 
-func (c *current) onBlockAttributes226() (interface{}, error) {
+func (c *current) onBlockAttributes238() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes226() (interface{}, error) {
+func (p *parser) callonBlockAttributes238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes226()
+	return p.cur.onBlockAttributes238()
 }
 
-func (c *current) onBlockAttributes229() (interface{}, error) {
+func (c *current) onBlockAttributes241() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes229() (interface{}, error) {
+func (p *parser) callonBlockAttributes241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes229()
+	return p.cur.onBlockAttributes241()
 }
 
-func (c *current) onBlockAttributes221() (interface{}, error) {
+func (c *current) onBlockAttributes233() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes221() (interface{}, error) {
+func (p *parser) callonBlockAttributes233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes221()
+	return p.cur.onBlockAttributes233()
 }
 
-func (c *current) onBlockAttributes205(attributes interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes217(attributes interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes205() (interface{}, error) {
+func (p *parser) callonBlockAttributes217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes205(stack["attributes"])
+	return p.cur.onBlockAttributes217(stack["attributes"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -56627,114 +54803,62 @@ func (p *parser) callonShortHandAttributeValue28() (interface{}, error) {
 	return p.cur.onShortHandAttributeValue28(stack["name"])
 }
 
-func (c *current) onShortHandAttributeValue42() (interface{}, error) {
+func (c *current) onShortHandAttributeValue48() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortHandAttributeValue42() (interface{}, error) {
+func (p *parser) callonShortHandAttributeValue48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue42()
+	return p.cur.onShortHandAttributeValue48()
 }
 
-func (c *current) onShortHandAttributeValue54() (interface{}, error) {
+func (c *current) onShortHandAttributeValue60() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortHandAttributeValue54() (interface{}, error) {
+func (p *parser) callonShortHandAttributeValue60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue54()
+	return p.cur.onShortHandAttributeValue60()
 }
 
-func (c *current) onShortHandAttributeValue56() (interface{}, error) {
+func (c *current) onShortHandAttributeValue62() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonShortHandAttributeValue56() (interface{}, error) {
+func (p *parser) callonShortHandAttributeValue62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue56()
+	return p.cur.onShortHandAttributeValue62()
 }
 
-func (c *current) onShortHandAttributeValue49(start interface{}) (interface{}, error) {
+func (c *current) onShortHandAttributeValue55(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonShortHandAttributeValue49() (interface{}, error) {
+func (p *parser) callonShortHandAttributeValue55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue49(stack["start"])
+	return p.cur.onShortHandAttributeValue55(stack["start"])
 }
 
-func (c *current) onShortHandAttributeValue38(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onShortHandAttributeValue38(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonShortHandAttributeValue38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue38(stack["name"], stack["start"])
-}
-
-func (c *current) onShortHandAttributeValue64() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonShortHandAttributeValue64() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortHandAttributeValue64()
-}
-
-func (c *current) onShortHandAttributeValue76() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonShortHandAttributeValue76() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortHandAttributeValue76()
-}
-
-func (c *current) onShortHandAttributeValue78() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonShortHandAttributeValue78() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortHandAttributeValue78()
-}
-
-func (c *current) onShortHandAttributeValue71(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonShortHandAttributeValue71() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortHandAttributeValue71(stack["start"])
-}
-
-func (c *current) onShortHandAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonShortHandAttributeValue60() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortHandAttributeValue60(stack["name"], stack["start"])
+	return p.cur.onShortHandAttributeValue38(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onShortHandAttributeValue13(element interface{}) (interface{}, error) {
@@ -56748,28 +54872,28 @@ func (p *parser) callonShortHandAttributeValue13() (interface{}, error) {
 	return p.cur.onShortHandAttributeValue13(stack["element"])
 }
 
-func (c *current) onShortHandAttributeValue82() (interface{}, error) {
+func (c *current) onShortHandAttributeValue66() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonShortHandAttributeValue82() (interface{}, error) {
+func (p *parser) callonShortHandAttributeValue66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue82()
+	return p.cur.onShortHandAttributeValue66()
 }
 
-func (c *current) onShortHandAttributeValue88() (interface{}, error) {
+func (c *current) onShortHandAttributeValue72() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortHandAttributeValue88() (interface{}, error) {
+func (p *parser) callonShortHandAttributeValue72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortHandAttributeValue88()
+	return p.cur.onShortHandAttributeValue72()
 }
 
 func (c *current) onShortHandAttributeValue4(elements interface{}) (interface{}, error) {
@@ -57030,114 +55154,62 @@ func (p *parser) callonSingleQuotedAttributeValueContent26() (interface{}, error
 	return p.cur.onSingleQuotedAttributeValueContent26(stack["name"])
 }
 
-func (c *current) onSingleQuotedAttributeValueContent40() (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent46() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent40() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent40()
+	return p.cur.onSingleQuotedAttributeValueContent46()
 }
 
-func (c *current) onSingleQuotedAttributeValueContent52() (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent58() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent52() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent52()
+	return p.cur.onSingleQuotedAttributeValueContent58()
 }
 
-func (c *current) onSingleQuotedAttributeValueContent54() (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent60() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent54() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent54()
+	return p.cur.onSingleQuotedAttributeValueContent60()
 }
 
-func (c *current) onSingleQuotedAttributeValueContent47(start interface{}) (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent53(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent47() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent47(stack["start"])
+	return p.cur.onSingleQuotedAttributeValueContent53(stack["start"])
 }
 
-func (c *current) onSingleQuotedAttributeValueContent36(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onSingleQuotedAttributeValueContent36(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonSingleQuotedAttributeValueContent36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent36(stack["name"], stack["start"])
-}
-
-func (c *current) onSingleQuotedAttributeValueContent62() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSingleQuotedAttributeValueContent62() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent62()
-}
-
-func (c *current) onSingleQuotedAttributeValueContent74() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSingleQuotedAttributeValueContent74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent74()
-}
-
-func (c *current) onSingleQuotedAttributeValueContent76() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonSingleQuotedAttributeValueContent76() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent76()
-}
-
-func (c *current) onSingleQuotedAttributeValueContent69(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonSingleQuotedAttributeValueContent69() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent69(stack["start"])
-}
-
-func (c *current) onSingleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonSingleQuotedAttributeValueContent58() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent58(stack["name"], stack["start"])
+	return p.cur.onSingleQuotedAttributeValueContent36(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onSingleQuotedAttributeValueContent11(element interface{}) (interface{}, error) {
@@ -57151,40 +55223,40 @@ func (p *parser) callonSingleQuotedAttributeValueContent11() (interface{}, error
 	return p.cur.onSingleQuotedAttributeValueContent11(stack["element"])
 }
 
-func (c *current) onSingleQuotedAttributeValueContent80() (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent64() (interface{}, error) {
 
 	return types.NewStringElement(`'`) // escaped single quote
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent80() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent80()
+	return p.cur.onSingleQuotedAttributeValueContent64()
 }
 
-func (c *current) onSingleQuotedAttributeValueContent84() (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent68() (interface{}, error) {
 	// quoted string delimiters or standalone backslash
 	return types.NewStringElement(string(c.text)) // keep as-is for now
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent84() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent84()
+	return p.cur.onSingleQuotedAttributeValueContent68()
 }
 
-func (c *current) onSingleQuotedAttributeValueContent86() (interface{}, error) {
+func (c *current) onSingleQuotedAttributeValueContent70() (interface{}, error) {
 	// = and , signs are allowed within '' quoted values
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSingleQuotedAttributeValueContent86() (interface{}, error) {
+func (p *parser) callonSingleQuotedAttributeValueContent70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuotedAttributeValueContent86()
+	return p.cur.onSingleQuotedAttributeValueContent70()
 }
 
 func (c *current) onSingleQuotedAttributeValueContent1(elements interface{}) (interface{}, error) {
@@ -57303,114 +55375,62 @@ func (p *parser) callonDoubleQuotedAttributeValueContent26() (interface{}, error
 	return p.cur.onDoubleQuotedAttributeValueContent26(stack["name"])
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent40() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent46() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent40() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent40()
+	return p.cur.onDoubleQuotedAttributeValueContent46()
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent52() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent58() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent52() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent52()
+	return p.cur.onDoubleQuotedAttributeValueContent58()
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent54() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent60() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent54() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent54()
+	return p.cur.onDoubleQuotedAttributeValueContent60()
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent47(start interface{}) (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent53(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent47() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent47(stack["start"])
+	return p.cur.onDoubleQuotedAttributeValueContent53(stack["start"])
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent36(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onDoubleQuotedAttributeValueContent36(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonDoubleQuotedAttributeValueContent36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent36(stack["name"], stack["start"])
-}
-
-func (c *current) onDoubleQuotedAttributeValueContent62() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDoubleQuotedAttributeValueContent62() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent62()
-}
-
-func (c *current) onDoubleQuotedAttributeValueContent74() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDoubleQuotedAttributeValueContent74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent74()
-}
-
-func (c *current) onDoubleQuotedAttributeValueContent76() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonDoubleQuotedAttributeValueContent76() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent76()
-}
-
-func (c *current) onDoubleQuotedAttributeValueContent69(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonDoubleQuotedAttributeValueContent69() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent69(stack["start"])
-}
-
-func (c *current) onDoubleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonDoubleQuotedAttributeValueContent58() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent58(stack["name"], stack["start"])
+	return p.cur.onDoubleQuotedAttributeValueContent36(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent11(element interface{}) (interface{}, error) {
@@ -57424,40 +55444,40 @@ func (p *parser) callonDoubleQuotedAttributeValueContent11() (interface{}, error
 	return p.cur.onDoubleQuotedAttributeValueContent11(stack["element"])
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent80() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent64() (interface{}, error) {
 
 	return types.NewStringElement(`"`) // escaped double quote
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent80() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent80()
+	return p.cur.onDoubleQuotedAttributeValueContent64()
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent85() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent69() (interface{}, error) {
 	// quoted string delimiters or standalone backslash or standalone backtick
 	return types.NewStringElement(string(c.text)) // keep as-is for now
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent85() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent85()
+	return p.cur.onDoubleQuotedAttributeValueContent69()
 }
 
-func (c *current) onDoubleQuotedAttributeValueContent87() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValueContent71() (interface{}, error) {
 	// = and , signs are allowed within " quoted values
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValueContent87() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValueContent71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValueContent87()
+	return p.cur.onDoubleQuotedAttributeValueContent71()
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent1(elements interface{}) (interface{}, error) {
@@ -57542,114 +55562,62 @@ func (p *parser) callonUnquotedAttributeValue28() (interface{}, error) {
 	return p.cur.onUnquotedAttributeValue28(stack["name"])
 }
 
-func (c *current) onUnquotedAttributeValue42() (interface{}, error) {
+func (c *current) onUnquotedAttributeValue48() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonUnquotedAttributeValue42() (interface{}, error) {
+func (p *parser) callonUnquotedAttributeValue48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue42()
+	return p.cur.onUnquotedAttributeValue48()
 }
 
-func (c *current) onUnquotedAttributeValue54() (interface{}, error) {
+func (c *current) onUnquotedAttributeValue60() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonUnquotedAttributeValue54() (interface{}, error) {
+func (p *parser) callonUnquotedAttributeValue60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue54()
+	return p.cur.onUnquotedAttributeValue60()
 }
 
-func (c *current) onUnquotedAttributeValue56() (interface{}, error) {
+func (c *current) onUnquotedAttributeValue62() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonUnquotedAttributeValue56() (interface{}, error) {
+func (p *parser) callonUnquotedAttributeValue62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue56()
+	return p.cur.onUnquotedAttributeValue62()
 }
 
-func (c *current) onUnquotedAttributeValue49(start interface{}) (interface{}, error) {
+func (c *current) onUnquotedAttributeValue55(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonUnquotedAttributeValue49() (interface{}, error) {
+func (p *parser) callonUnquotedAttributeValue55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue49(stack["start"])
+	return p.cur.onUnquotedAttributeValue55(stack["start"])
 }
 
-func (c *current) onUnquotedAttributeValue38(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onUnquotedAttributeValue38(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonUnquotedAttributeValue38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue38(stack["name"], stack["start"])
-}
-
-func (c *current) onUnquotedAttributeValue64() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonUnquotedAttributeValue64() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onUnquotedAttributeValue64()
-}
-
-func (c *current) onUnquotedAttributeValue76() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonUnquotedAttributeValue76() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onUnquotedAttributeValue76()
-}
-
-func (c *current) onUnquotedAttributeValue78() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonUnquotedAttributeValue78() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onUnquotedAttributeValue78()
-}
-
-func (c *current) onUnquotedAttributeValue71(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonUnquotedAttributeValue71() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onUnquotedAttributeValue71(stack["start"])
-}
-
-func (c *current) onUnquotedAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonUnquotedAttributeValue60() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onUnquotedAttributeValue60(stack["name"], stack["start"])
+	return p.cur.onUnquotedAttributeValue38(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onUnquotedAttributeValue13(element interface{}) (interface{}, error) {
@@ -57663,28 +55631,28 @@ func (p *parser) callonUnquotedAttributeValue13() (interface{}, error) {
 	return p.cur.onUnquotedAttributeValue13(stack["element"])
 }
 
-func (c *current) onUnquotedAttributeValue83() (interface{}, error) {
+func (c *current) onUnquotedAttributeValue67() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonUnquotedAttributeValue83() (interface{}, error) {
+func (p *parser) callonUnquotedAttributeValue67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue83()
+	return p.cur.onUnquotedAttributeValue67()
 }
 
-func (c *current) onUnquotedAttributeValue85() (interface{}, error) {
+func (c *current) onUnquotedAttributeValue69() (interface{}, error) {
 	// not within brackets and stop on space and quotation marks (`"')
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonUnquotedAttributeValue85() (interface{}, error) {
+func (p *parser) callonUnquotedAttributeValue69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUnquotedAttributeValue85()
+	return p.cur.onUnquotedAttributeValue69()
 }
 
 func (c *current) onUnquotedAttributeValue1(elements interface{}) (interface{}, error) {
@@ -57911,114 +55879,62 @@ func (p *parser) callonExternalCrossReference42() (interface{}, error) {
 	return p.cur.onExternalCrossReference42(stack["name"])
 }
 
-func (c *current) onExternalCrossReference56() (interface{}, error) {
+func (c *current) onExternalCrossReference62() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalCrossReference56() (interface{}, error) {
+func (p *parser) callonExternalCrossReference62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference56()
+	return p.cur.onExternalCrossReference62()
 }
 
-func (c *current) onExternalCrossReference68() (interface{}, error) {
+func (c *current) onExternalCrossReference74() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalCrossReference68() (interface{}, error) {
+func (p *parser) callonExternalCrossReference74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference68()
+	return p.cur.onExternalCrossReference74()
 }
 
-func (c *current) onExternalCrossReference70() (interface{}, error) {
+func (c *current) onExternalCrossReference76() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalCrossReference70() (interface{}, error) {
+func (p *parser) callonExternalCrossReference76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference70()
+	return p.cur.onExternalCrossReference76()
 }
 
-func (c *current) onExternalCrossReference63(start interface{}) (interface{}, error) {
+func (c *current) onExternalCrossReference69(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalCrossReference63() (interface{}, error) {
+func (p *parser) callonExternalCrossReference69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference63(stack["start"])
+	return p.cur.onExternalCrossReference69(stack["start"])
 }
 
-func (c *current) onExternalCrossReference52(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onExternalCrossReference52(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonExternalCrossReference52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference52(stack["name"], stack["start"])
-}
-
-func (c *current) onExternalCrossReference78() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExternalCrossReference78() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalCrossReference78()
-}
-
-func (c *current) onExternalCrossReference90() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExternalCrossReference90() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalCrossReference90()
-}
-
-func (c *current) onExternalCrossReference92() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonExternalCrossReference92() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalCrossReference92()
-}
-
-func (c *current) onExternalCrossReference85(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonExternalCrossReference85() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalCrossReference85(stack["start"])
-}
-
-func (c *current) onExternalCrossReference74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonExternalCrossReference74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalCrossReference74(stack["name"], stack["start"])
+	return p.cur.onExternalCrossReference52(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onExternalCrossReference27(element interface{}) (interface{}, error) {
@@ -58032,35 +55948,35 @@ func (p *parser) callonExternalCrossReference27() (interface{}, error) {
 	return p.cur.onExternalCrossReference27(stack["element"])
 }
 
-func (c *current) onExternalCrossReference100() (interface{}, error) {
+func (c *current) onExternalCrossReference84() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalCrossReference100() (interface{}, error) {
+func (p *parser) callonExternalCrossReference84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference100()
+	return p.cur.onExternalCrossReference84()
 }
 
-func (c *current) onExternalCrossReference96(ref interface{}) (interface{}, error) {
+func (c *current) onExternalCrossReference80(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonExternalCrossReference96() (interface{}, error) {
+func (p *parser) callonExternalCrossReference80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference96(stack["ref"])
+	return p.cur.onExternalCrossReference80(stack["ref"])
 }
 
-func (c *current) onExternalCrossReference104() (interface{}, error) {
+func (c *current) onExternalCrossReference88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalCrossReference104() (interface{}, error) {
+func (p *parser) callonExternalCrossReference88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference104()
+	return p.cur.onExternalCrossReference88()
 }
 
 func (c *current) onExternalCrossReference7(elements interface{}) (interface{}, error) {
@@ -59990,114 +57906,62 @@ func (p *parser) callonImageBlock52() (interface{}, error) {
 	return p.cur.onImageBlock52(stack["name"])
 }
 
-func (c *current) onImageBlock66() (interface{}, error) {
+func (c *current) onImageBlock72() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock66() (interface{}, error) {
+func (p *parser) callonImageBlock72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock66()
+	return p.cur.onImageBlock72()
 }
 
-func (c *current) onImageBlock78() (interface{}, error) {
+func (c *current) onImageBlock84() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock78() (interface{}, error) {
+func (p *parser) callonImageBlock84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock78()
+	return p.cur.onImageBlock84()
 }
 
-func (c *current) onImageBlock80() (interface{}, error) {
+func (c *current) onImageBlock86() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonImageBlock80() (interface{}, error) {
+func (p *parser) callonImageBlock86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock80()
+	return p.cur.onImageBlock86()
 }
 
-func (c *current) onImageBlock73(start interface{}) (interface{}, error) {
+func (c *current) onImageBlock79(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonImageBlock73() (interface{}, error) {
+func (p *parser) callonImageBlock79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock73(stack["start"])
+	return p.cur.onImageBlock79(stack["start"])
 }
 
-func (c *current) onImageBlock62(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onImageBlock62(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonImageBlock62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock62(stack["name"], stack["start"])
-}
-
-func (c *current) onImageBlock88() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonImageBlock88() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onImageBlock88()
-}
-
-func (c *current) onImageBlock100() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonImageBlock100() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onImageBlock100()
-}
-
-func (c *current) onImageBlock102() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonImageBlock102() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onImageBlock102()
-}
-
-func (c *current) onImageBlock95(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonImageBlock95() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onImageBlock95(stack["start"])
-}
-
-func (c *current) onImageBlock84(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonImageBlock84() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onImageBlock84(stack["name"], stack["start"])
+	return p.cur.onImageBlock62(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onImageBlock37(element interface{}) (interface{}, error) {
@@ -60111,35 +57975,35 @@ func (p *parser) callonImageBlock37() (interface{}, error) {
 	return p.cur.onImageBlock37(stack["element"])
 }
 
-func (c *current) onImageBlock110() (interface{}, error) {
+func (c *current) onImageBlock94() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock110() (interface{}, error) {
+func (p *parser) callonImageBlock94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock110()
+	return p.cur.onImageBlock94()
 }
 
-func (c *current) onImageBlock106(ref interface{}) (interface{}, error) {
+func (c *current) onImageBlock90(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonImageBlock106() (interface{}, error) {
+func (p *parser) callonImageBlock90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock106(stack["ref"])
+	return p.cur.onImageBlock90(stack["ref"])
 }
 
-func (c *current) onImageBlock114() (interface{}, error) {
+func (c *current) onImageBlock98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock114() (interface{}, error) {
+func (p *parser) callonImageBlock98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock114()
+	return p.cur.onImageBlock98()
 }
 
 func (c *current) onImageBlock17(elements interface{}) (interface{}, error) {
@@ -60164,27 +58028,27 @@ func (p *parser) callonImageBlock5() (interface{}, error) {
 	return p.cur.onImageBlock5(stack["scheme"], stack["path"])
 }
 
-func (c *current) onImageBlock119() (interface{}, error) {
+func (c *current) onImageBlock103() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock119() (interface{}, error) {
+func (p *parser) callonImageBlock103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock119()
+	return p.cur.onImageBlock103()
 }
 
-func (c *current) onImageBlock122() (interface{}, error) {
+func (c *current) onImageBlock106() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock122() (interface{}, error) {
+func (p *parser) callonImageBlock106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock122()
+	return p.cur.onImageBlock106()
 }
 
 func (c *current) onImageBlock1(path, attributes interface{}) (interface{}, error) {
@@ -60292,114 +58156,62 @@ func (p *parser) callonInlineImage54() (interface{}, error) {
 	return p.cur.onInlineImage54(stack["name"])
 }
 
-func (c *current) onInlineImage68() (interface{}, error) {
+func (c *current) onInlineImage74() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlineImage68() (interface{}, error) {
+func (p *parser) callonInlineImage74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage68()
+	return p.cur.onInlineImage74()
 }
 
-func (c *current) onInlineImage80() (interface{}, error) {
+func (c *current) onInlineImage86() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlineImage80() (interface{}, error) {
+func (p *parser) callonInlineImage86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage80()
+	return p.cur.onInlineImage86()
 }
 
-func (c *current) onInlineImage82() (interface{}, error) {
+func (c *current) onInlineImage88() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonInlineImage82() (interface{}, error) {
+func (p *parser) callonInlineImage88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage82()
+	return p.cur.onInlineImage88()
 }
 
-func (c *current) onInlineImage75(start interface{}) (interface{}, error) {
+func (c *current) onInlineImage81(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonInlineImage75() (interface{}, error) {
+func (p *parser) callonInlineImage81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage75(stack["start"])
+	return p.cur.onInlineImage81(stack["start"])
 }
 
-func (c *current) onInlineImage64(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onInlineImage64(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonInlineImage64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage64(stack["name"], stack["start"])
-}
-
-func (c *current) onInlineImage90() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonInlineImage90() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onInlineImage90()
-}
-
-func (c *current) onInlineImage102() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonInlineImage102() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onInlineImage102()
-}
-
-func (c *current) onInlineImage104() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonInlineImage104() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onInlineImage104()
-}
-
-func (c *current) onInlineImage97(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonInlineImage97() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onInlineImage97(stack["start"])
-}
-
-func (c *current) onInlineImage86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonInlineImage86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onInlineImage86(stack["name"], stack["start"])
+	return p.cur.onInlineImage64(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onInlineImage39(element interface{}) (interface{}, error) {
@@ -60413,35 +58225,35 @@ func (p *parser) callonInlineImage39() (interface{}, error) {
 	return p.cur.onInlineImage39(stack["element"])
 }
 
-func (c *current) onInlineImage112() (interface{}, error) {
+func (c *current) onInlineImage96() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlineImage112() (interface{}, error) {
+func (p *parser) callonInlineImage96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage112()
+	return p.cur.onInlineImage96()
 }
 
-func (c *current) onInlineImage108(ref interface{}) (interface{}, error) {
+func (c *current) onInlineImage92(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonInlineImage108() (interface{}, error) {
+func (p *parser) callonInlineImage92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage108(stack["ref"])
+	return p.cur.onInlineImage92(stack["ref"])
 }
 
-func (c *current) onInlineImage116() (interface{}, error) {
+func (c *current) onInlineImage100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlineImage116() (interface{}, error) {
+func (p *parser) callonInlineImage100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage116()
+	return p.cur.onInlineImage100()
 }
 
 func (c *current) onInlineImage19(elements interface{}) (interface{}, error) {
@@ -60790,114 +58602,62 @@ func (p *parser) callonFootnoteElement86() (interface{}, error) {
 	return p.cur.onFootnoteElement86(stack["name"])
 }
 
-func (c *current) onFootnoteElement100() (interface{}, error) {
+func (c *current) onFootnoteElement106() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement100() (interface{}, error) {
+func (p *parser) callonFootnoteElement106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement100()
+	return p.cur.onFootnoteElement106()
 }
 
-func (c *current) onFootnoteElement112() (interface{}, error) {
+func (c *current) onFootnoteElement118() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement112() (interface{}, error) {
+func (p *parser) callonFootnoteElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement112()
+	return p.cur.onFootnoteElement118()
 }
 
-func (c *current) onFootnoteElement114() (interface{}, error) {
+func (c *current) onFootnoteElement120() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement114() (interface{}, error) {
+func (p *parser) callonFootnoteElement120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement114()
+	return p.cur.onFootnoteElement120()
 }
 
-func (c *current) onFootnoteElement107(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement113(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement107() (interface{}, error) {
+func (p *parser) callonFootnoteElement113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement107(stack["start"])
+	return p.cur.onFootnoteElement113(stack["start"])
 }
 
-func (c *current) onFootnoteElement96(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onFootnoteElement96(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonFootnoteElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement96(stack["name"], stack["start"])
-}
-
-func (c *current) onFootnoteElement122() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonFootnoteElement122() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFootnoteElement122()
-}
-
-func (c *current) onFootnoteElement134() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonFootnoteElement134() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFootnoteElement134()
-}
-
-func (c *current) onFootnoteElement136() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonFootnoteElement136() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFootnoteElement136()
-}
-
-func (c *current) onFootnoteElement129(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonFootnoteElement129() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFootnoteElement129(stack["start"])
-}
-
-func (c *current) onFootnoteElement118(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonFootnoteElement118() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFootnoteElement118(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement96(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onFootnoteElement71(element interface{}) (interface{}, error) {
@@ -60911,51 +58671,51 @@ func (p *parser) callonFootnoteElement71() (interface{}, error) {
 	return p.cur.onFootnoteElement71(stack["element"])
 }
 
-func (c *current) onFootnoteElement142() (bool, error) {
+func (c *current) onFootnoteElement126() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement142() (bool, error) {
+func (p *parser) callonFootnoteElement126() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement142()
+	return p.cur.onFootnoteElement126()
 }
 
-func (c *current) onFootnoteElement144() (interface{}, error) {
+func (c *current) onFootnoteElement128() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement144() (interface{}, error) {
+func (p *parser) callonFootnoteElement128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement144()
+	return p.cur.onFootnoteElement128()
 }
 
-func (c *current) onFootnoteElement140(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement124(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement140() (interface{}, error) {
+func (p *parser) callonFootnoteElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement140(stack["element"])
+	return p.cur.onFootnoteElement124(stack["element"])
 }
 
-func (c *current) onFootnoteElement146() (interface{}, error) {
+func (c *current) onFootnoteElement130() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement146() (interface{}, error) {
+func (p *parser) callonFootnoteElement130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement146()
+	return p.cur.onFootnoteElement130()
 }
 
-func (c *current) onFootnoteElement151() (interface{}, error) {
+func (c *current) onFootnoteElement135() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -60964,10 +58724,10 @@ func (c *current) onFootnoteElement151() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement151() (interface{}, error) {
+func (p *parser) callonFootnoteElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement151()
+	return p.cur.onFootnoteElement135()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -61119,114 +58879,62 @@ func (p *parser) callonLink54() (interface{}, error) {
 	return p.cur.onLink54(stack["name"])
 }
 
-func (c *current) onLink68() (interface{}, error) {
+func (c *current) onLink74() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink68() (interface{}, error) {
+func (p *parser) callonLink74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink68()
+	return p.cur.onLink74()
 }
 
-func (c *current) onLink80() (interface{}, error) {
+func (c *current) onLink86() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink80() (interface{}, error) {
+func (p *parser) callonLink86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink80()
+	return p.cur.onLink86()
 }
 
-func (c *current) onLink82() (interface{}, error) {
+func (c *current) onLink88() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonLink82() (interface{}, error) {
+func (p *parser) callonLink88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink82()
+	return p.cur.onLink88()
 }
 
-func (c *current) onLink75(start interface{}) (interface{}, error) {
+func (c *current) onLink81(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonLink75() (interface{}, error) {
+func (p *parser) callonLink81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink75(stack["start"])
+	return p.cur.onLink81(stack["start"])
 }
 
-func (c *current) onLink64(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onLink64(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonLink64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink64(stack["name"], stack["start"])
-}
-
-func (c *current) onLink90() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonLink90() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink90()
-}
-
-func (c *current) onLink102() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonLink102() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink102()
-}
-
-func (c *current) onLink104() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonLink104() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink104()
-}
-
-func (c *current) onLink97(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonLink97() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink97(stack["start"])
-}
-
-func (c *current) onLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonLink86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink86(stack["name"], stack["start"])
+	return p.cur.onLink64(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onLink39(element interface{}) (interface{}, error) {
@@ -61240,35 +58948,35 @@ func (p *parser) callonLink39() (interface{}, error) {
 	return p.cur.onLink39(stack["element"])
 }
 
-func (c *current) onLink112() (interface{}, error) {
+func (c *current) onLink96() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonLink112() (interface{}, error) {
+func (p *parser) callonLink96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink112()
+	return p.cur.onLink96()
 }
 
-func (c *current) onLink108(ref interface{}) (interface{}, error) {
+func (c *current) onLink92(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonLink108() (interface{}, error) {
+func (p *parser) callonLink92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink108(stack["ref"])
+	return p.cur.onLink92(stack["ref"])
 }
 
-func (c *current) onLink116() (interface{}, error) {
+func (c *current) onLink100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink116() (interface{}, error) {
+func (p *parser) callonLink100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink116()
+	return p.cur.onLink100()
 }
 
 func (c *current) onLink19(elements interface{}) (interface{}, error) {
@@ -61305,19 +59013,19 @@ func (p *parser) callonLink2() (interface{}, error) {
 	return p.cur.onLink2(stack["url"])
 }
 
-func (c *current) onLink127() (interface{}, error) {
+func (c *current) onLink111() (interface{}, error) {
 	// `'
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink127() (interface{}, error) {
+func (p *parser) callonLink111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink127()
+	return p.cur.onLink111()
 }
 
-func (c *current) onLink130(local interface{}) (bool, error) {
+func (c *current) onLink114(local interface{}) (bool, error) {
 	// must not start or end with `.` nor contain `..`
 	return !strings.HasPrefix(local.(string), ".") &&
 		!strings.HasSuffix(local.(string), ".") &&
@@ -61325,65 +59033,65 @@ func (c *current) onLink130(local interface{}) (bool, error) {
 
 }
 
-func (p *parser) callonLink130() (bool, error) {
+func (p *parser) callonLink114() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink130(stack["local"])
+	return p.cur.onLink114(stack["local"])
 }
 
-func (c *current) onLink124(local interface{}) (interface{}, error) {
+func (c *current) onLink108(local interface{}) (interface{}, error) {
 	return local, nil
 
 }
 
-func (p *parser) callonLink124() (interface{}, error) {
+func (p *parser) callonLink108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink124(stack["local"])
+	return p.cur.onLink108(stack["local"])
 }
 
-func (c *current) onLink136() (interface{}, error) {
+func (c *current) onLink120() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink136() (interface{}, error) {
+func (p *parser) callonLink120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink136()
+	return p.cur.onLink120()
 }
 
-func (c *current) onLink145(domain interface{}) (bool, error) {
+func (c *current) onLink129(domain interface{}) (bool, error) {
 	// must not end with `-`
 	return !strings.HasSuffix(domain.(string), "-"), nil
 
 }
 
-func (p *parser) callonLink145() (bool, error) {
+func (p *parser) callonLink129() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink145(stack["domain"])
+	return p.cur.onLink129(stack["domain"])
 }
 
-func (c *current) onLink133(domain interface{}) (interface{}, error) {
+func (c *current) onLink117(domain interface{}) (interface{}, error) {
 	return domain, nil
 
 }
 
-func (p *parser) callonLink133() (interface{}, error) {
+func (p *parser) callonLink117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink133(stack["domain"])
+	return p.cur.onLink117(stack["domain"])
 }
 
-func (c *current) onLink121(local, domain interface{}) (interface{}, error) {
+func (c *current) onLink105(local, domain interface{}) (interface{}, error) {
 	return types.NewEmailAddressLink(local.(string) + "@" + domain.(string))
 }
 
-func (p *parser) callonLink121() (interface{}, error) {
+func (p *parser) callonLink105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink121(stack["local"], stack["domain"])
+	return p.cur.onLink105(stack["local"], stack["domain"])
 }
 
 func (c *current) onRelativeLink10() (interface{}, error) {
@@ -61479,114 +59187,62 @@ func (p *parser) callonRelativeLink53() (interface{}, error) {
 	return p.cur.onRelativeLink53(stack["name"])
 }
 
-func (c *current) onRelativeLink67() (interface{}, error) {
+func (c *current) onRelativeLink73() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink67() (interface{}, error) {
+func (p *parser) callonRelativeLink73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink67()
+	return p.cur.onRelativeLink73()
 }
 
-func (c *current) onRelativeLink79() (interface{}, error) {
+func (c *current) onRelativeLink85() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink79() (interface{}, error) {
+func (p *parser) callonRelativeLink85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink79()
+	return p.cur.onRelativeLink85()
 }
 
-func (c *current) onRelativeLink81() (interface{}, error) {
+func (c *current) onRelativeLink87() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink81() (interface{}, error) {
+func (p *parser) callonRelativeLink87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink81()
+	return p.cur.onRelativeLink87()
 }
 
-func (c *current) onRelativeLink74(start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink80(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonRelativeLink74() (interface{}, error) {
+func (p *parser) callonRelativeLink80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink74(stack["start"])
+	return p.cur.onRelativeLink80(stack["start"])
 }
 
-func (c *current) onRelativeLink63(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onRelativeLink63(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink63(stack["name"], stack["start"])
-}
-
-func (c *current) onRelativeLink89() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonRelativeLink89() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink89()
-}
-
-func (c *current) onRelativeLink101() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonRelativeLink101() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink101()
-}
-
-func (c *current) onRelativeLink103() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonRelativeLink103() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink103()
-}
-
-func (c *current) onRelativeLink96(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonRelativeLink96() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink96(stack["start"])
-}
-
-func (c *current) onRelativeLink85(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonRelativeLink85() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink85(stack["name"], stack["start"])
+	return p.cur.onRelativeLink63(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onRelativeLink38(element interface{}) (interface{}, error) {
@@ -61600,35 +59256,35 @@ func (p *parser) callonRelativeLink38() (interface{}, error) {
 	return p.cur.onRelativeLink38(stack["element"])
 }
 
-func (c *current) onRelativeLink111() (interface{}, error) {
+func (c *current) onRelativeLink95() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink111() (interface{}, error) {
+func (p *parser) callonRelativeLink95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink111()
+	return p.cur.onRelativeLink95()
 }
 
-func (c *current) onRelativeLink107(ref interface{}) (interface{}, error) {
+func (c *current) onRelativeLink91(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonRelativeLink107() (interface{}, error) {
+func (p *parser) callonRelativeLink91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink107(stack["ref"])
+	return p.cur.onRelativeLink91(stack["ref"])
 }
 
-func (c *current) onRelativeLink115() (interface{}, error) {
+func (c *current) onRelativeLink99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink115() (interface{}, error) {
+func (p *parser) callonRelativeLink99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink115()
+	return p.cur.onRelativeLink99()
 }
 
 func (c *current) onRelativeLink18(elements interface{}) (interface{}, error) {
@@ -61664,63 +59320,63 @@ func (p *parser) callonRelativeLink2() (interface{}, error) {
 	return p.cur.onRelativeLink2(stack["url"], stack["attributes"])
 }
 
-func (c *current) onRelativeLink127() (interface{}, error) {
+func (c *current) onRelativeLink111() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink127() (interface{}, error) {
+func (p *parser) callonRelativeLink111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink127()
+	return p.cur.onRelativeLink111()
 }
 
-func (c *current) onRelativeLink139() (interface{}, error) {
+func (c *current) onRelativeLink123() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink139() (interface{}, error) {
+func (p *parser) callonRelativeLink123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink139()
+	return p.cur.onRelativeLink123()
 }
 
-func (c *current) onRelativeLink150() (interface{}, error) {
+func (c *current) onRelativeLink134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink150() (interface{}, error) {
+func (p *parser) callonRelativeLink134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink150()
+	return p.cur.onRelativeLink134()
 }
 
-func (c *current) onRelativeLink157() (bool, error) {
+func (c *current) onRelativeLink141() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonRelativeLink157() (bool, error) {
+func (p *parser) callonRelativeLink141() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink157()
+	return p.cur.onRelativeLink141()
 }
 
-func (c *current) onRelativeLink164() (interface{}, error) {
+func (c *current) onRelativeLink148() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink164() (interface{}, error) {
+func (p *parser) callonRelativeLink148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink164()
+	return p.cur.onRelativeLink148()
 }
 
-func (c *current) onRelativeLink160(name interface{}) (interface{}, error) {
+func (c *current) onRelativeLink144(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -61728,218 +59384,166 @@ func (c *current) onRelativeLink160(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonRelativeLink160() (interface{}, error) {
+func (p *parser) callonRelativeLink144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink160(stack["name"])
+	return p.cur.onRelativeLink144(stack["name"])
 }
 
-func (c *current) onRelativeLink174() (interface{}, error) {
+func (c *current) onRelativeLink158() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink174() (interface{}, error) {
+func (p *parser) callonRelativeLink158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink174()
+	return p.cur.onRelativeLink158()
 }
 
-func (c *current) onRelativeLink170(name interface{}) (interface{}, error) {
+func (c *current) onRelativeLink154(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink170() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink170(stack["name"])
-}
-
-func (c *current) onRelativeLink184() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonRelativeLink184() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink184()
-}
-
-func (c *current) onRelativeLink196() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonRelativeLink196() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink196()
-}
-
-func (c *current) onRelativeLink198() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonRelativeLink198() (interface{}, error) {
+func (p *parser) callonRelativeLink154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink198()
+	return p.cur.onRelativeLink154(stack["name"])
 }
 
-func (c *current) onRelativeLink191(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonRelativeLink191() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink191(stack["start"])
-}
-
-func (c *current) onRelativeLink180(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
-}
-
-func (p *parser) callonRelativeLink180() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onRelativeLink180(stack["name"], stack["start"])
-}
-
-func (c *current) onRelativeLink206() (interface{}, error) {
+func (c *current) onRelativeLink174() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink206() (interface{}, error) {
+func (p *parser) callonRelativeLink174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink206()
+	return p.cur.onRelativeLink174()
 }
 
-func (c *current) onRelativeLink218() (interface{}, error) {
+func (c *current) onRelativeLink186() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink218() (interface{}, error) {
+func (p *parser) callonRelativeLink186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink218()
+	return p.cur.onRelativeLink186()
 }
 
-func (c *current) onRelativeLink220() (interface{}, error) {
+func (c *current) onRelativeLink188() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink220() (interface{}, error) {
+func (p *parser) callonRelativeLink188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink220()
+	return p.cur.onRelativeLink188()
 }
 
-func (c *current) onRelativeLink213(start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink181(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonRelativeLink213() (interface{}, error) {
+func (p *parser) callonRelativeLink181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink213(stack["start"])
+	return p.cur.onRelativeLink181(stack["start"])
 }
 
-func (c *current) onRelativeLink202(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+func (c *current) onRelativeLink164(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
-func (p *parser) callonRelativeLink202() (interface{}, error) {
+func (p *parser) callonRelativeLink164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink202(stack["name"], stack["start"])
+	return p.cur.onRelativeLink164(stack["hidden"], stack["name"], stack["start"])
 }
 
-func (c *current) onRelativeLink155(element interface{}) (interface{}, error) {
+func (c *current) onRelativeLink139(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonRelativeLink155() (interface{}, error) {
+func (p *parser) callonRelativeLink139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink155(stack["element"])
+	return p.cur.onRelativeLink139(stack["element"])
 }
 
-func (c *current) onRelativeLink228() (interface{}, error) {
+func (c *current) onRelativeLink196() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink228() (interface{}, error) {
+func (p *parser) callonRelativeLink196() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink228()
+	return p.cur.onRelativeLink196()
 }
 
-func (c *current) onRelativeLink224(ref interface{}) (interface{}, error) {
+func (c *current) onRelativeLink192(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonRelativeLink224() (interface{}, error) {
+func (p *parser) callonRelativeLink192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink224(stack["ref"])
+	return p.cur.onRelativeLink192(stack["ref"])
 }
 
-func (c *current) onRelativeLink232() (interface{}, error) {
+func (c *current) onRelativeLink200() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink232() (interface{}, error) {
+func (p *parser) callonRelativeLink200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink232()
+	return p.cur.onRelativeLink200()
 }
 
-func (c *current) onRelativeLink135(elements interface{}) (interface{}, error) {
+func (c *current) onRelativeLink119(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonRelativeLink135() (interface{}, error) {
+func (p *parser) callonRelativeLink119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink135(stack["elements"])
+	return p.cur.onRelativeLink119(stack["elements"])
 }
 
-func (c *current) onRelativeLink123(scheme, path interface{}) (interface{}, error) {
+func (c *current) onRelativeLink107(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonRelativeLink123() (interface{}, error) {
+func (p *parser) callonRelativeLink107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink123(stack["scheme"], stack["path"])
+	return p.cur.onRelativeLink107(stack["scheme"], stack["path"])
 }
 
-func (c *current) onRelativeLink119(url, attributes interface{}) (interface{}, error) {
+func (c *current) onRelativeLink103(url, attributes interface{}) (interface{}, error) {
 	return types.NewInlineLink(url.(*types.Location), attributes.(types.Attributes))
 
 }
 
-func (p *parser) callonRelativeLink119() (interface{}, error) {
+func (p *parser) callonRelativeLink103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink119(stack["url"], stack["attributes"])
+	return p.cur.onRelativeLink103(stack["url"], stack["attributes"])
 }
 
 func (c *current) onExternalLink11() (interface{}, error) {
@@ -62035,114 +59639,62 @@ func (p *parser) callonExternalLink54() (interface{}, error) {
 	return p.cur.onExternalLink54(stack["name"])
 }
 
-func (c *current) onExternalLink68() (interface{}, error) {
+func (c *current) onExternalLink74() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink68() (interface{}, error) {
+func (p *parser) callonExternalLink74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink68()
+	return p.cur.onExternalLink74()
 }
 
-func (c *current) onExternalLink80() (interface{}, error) {
+func (c *current) onExternalLink86() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink80() (interface{}, error) {
+func (p *parser) callonExternalLink86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink80()
+	return p.cur.onExternalLink86()
 }
 
-func (c *current) onExternalLink82() (interface{}, error) {
+func (c *current) onExternalLink88() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalLink82() (interface{}, error) {
+func (p *parser) callonExternalLink88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink82()
+	return p.cur.onExternalLink88()
 }
 
-func (c *current) onExternalLink75(start interface{}) (interface{}, error) {
+func (c *current) onExternalLink81(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalLink75() (interface{}, error) {
+func (p *parser) callonExternalLink81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink75(stack["start"])
+	return p.cur.onExternalLink81(stack["start"])
 }
 
-func (c *current) onExternalLink64(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onExternalLink64(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink64(stack["name"], stack["start"])
-}
-
-func (c *current) onExternalLink90() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExternalLink90() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink90()
-}
-
-func (c *current) onExternalLink102() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExternalLink102() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink102()
-}
-
-func (c *current) onExternalLink104() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonExternalLink104() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink104()
-}
-
-func (c *current) onExternalLink97(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonExternalLink97() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink97(stack["start"])
-}
-
-func (c *current) onExternalLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonExternalLink86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink86(stack["name"], stack["start"])
+	return p.cur.onExternalLink64(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onExternalLink39(element interface{}) (interface{}, error) {
@@ -62156,35 +59708,35 @@ func (p *parser) callonExternalLink39() (interface{}, error) {
 	return p.cur.onExternalLink39(stack["element"])
 }
 
-func (c *current) onExternalLink112() (interface{}, error) {
+func (c *current) onExternalLink96() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink112() (interface{}, error) {
+func (p *parser) callonExternalLink96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink112()
+	return p.cur.onExternalLink96()
 }
 
-func (c *current) onExternalLink108(ref interface{}) (interface{}, error) {
+func (c *current) onExternalLink92(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonExternalLink108() (interface{}, error) {
+func (p *parser) callonExternalLink92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink108(stack["ref"])
+	return p.cur.onExternalLink92(stack["ref"])
 }
 
-func (c *current) onExternalLink116() (interface{}, error) {
+func (c *current) onExternalLink100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink116() (interface{}, error) {
+func (p *parser) callonExternalLink100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink116()
+	return p.cur.onExternalLink100()
 }
 
 func (c *current) onExternalLink19(elements interface{}) (interface{}, error) {
@@ -62220,63 +59772,63 @@ func (p *parser) callonExternalLink2() (interface{}, error) {
 	return p.cur.onExternalLink2(stack["url"], stack["attributes"])
 }
 
-func (c *current) onExternalLink129() (interface{}, error) {
+func (c *current) onExternalLink113() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink129() (interface{}, error) {
+func (p *parser) callonExternalLink113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink129()
+	return p.cur.onExternalLink113()
 }
 
-func (c *current) onExternalLink141() (interface{}, error) {
+func (c *current) onExternalLink125() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink141() (interface{}, error) {
+func (p *parser) callonExternalLink125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink141()
+	return p.cur.onExternalLink125()
 }
 
-func (c *current) onExternalLink152() (interface{}, error) {
+func (c *current) onExternalLink136() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink152() (interface{}, error) {
+func (p *parser) callonExternalLink136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink152()
+	return p.cur.onExternalLink136()
 }
 
-func (c *current) onExternalLink159() (bool, error) {
+func (c *current) onExternalLink143() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonExternalLink159() (bool, error) {
+func (p *parser) callonExternalLink143() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink159()
+	return p.cur.onExternalLink143()
 }
 
-func (c *current) onExternalLink166() (interface{}, error) {
+func (c *current) onExternalLink150() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink166() (interface{}, error) {
+func (p *parser) callonExternalLink150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink166()
+	return p.cur.onExternalLink150()
 }
 
-func (c *current) onExternalLink162(name interface{}) (interface{}, error) {
+func (c *current) onExternalLink146(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -62284,218 +59836,166 @@ func (c *current) onExternalLink162(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonExternalLink162() (interface{}, error) {
+func (p *parser) callonExternalLink146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink162(stack["name"])
+	return p.cur.onExternalLink146(stack["name"])
 }
 
-func (c *current) onExternalLink176() (interface{}, error) {
+func (c *current) onExternalLink160() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink176() (interface{}, error) {
+func (p *parser) callonExternalLink160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink176()
+	return p.cur.onExternalLink160()
 }
 
-func (c *current) onExternalLink172(name interface{}) (interface{}, error) {
+func (c *current) onExternalLink156(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonExternalLink172() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink172(stack["name"])
-}
-
-func (c *current) onExternalLink186() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExternalLink186() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink186()
-}
-
-func (c *current) onExternalLink198() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExternalLink198() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink198()
-}
-
-func (c *current) onExternalLink200() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonExternalLink200() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink200()
-}
-
-func (c *current) onExternalLink193(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonExternalLink193() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExternalLink193(stack["start"])
-}
-
-func (c *current) onExternalLink182(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
-}
-
-func (p *parser) callonExternalLink182() (interface{}, error) {
+func (p *parser) callonExternalLink156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink182(stack["name"], stack["start"])
+	return p.cur.onExternalLink156(stack["name"])
 }
 
-func (c *current) onExternalLink208() (interface{}, error) {
+func (c *current) onExternalLink176() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink208() (interface{}, error) {
+func (p *parser) callonExternalLink176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink208()
+	return p.cur.onExternalLink176()
 }
 
-func (c *current) onExternalLink220() (interface{}, error) {
+func (c *current) onExternalLink188() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink220() (interface{}, error) {
+func (p *parser) callonExternalLink188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink220()
+	return p.cur.onExternalLink188()
 }
 
-func (c *current) onExternalLink222() (interface{}, error) {
+func (c *current) onExternalLink190() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalLink222() (interface{}, error) {
+func (p *parser) callonExternalLink190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink222()
+	return p.cur.onExternalLink190()
 }
 
-func (c *current) onExternalLink215(start interface{}) (interface{}, error) {
+func (c *current) onExternalLink183(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalLink215() (interface{}, error) {
+func (p *parser) callonExternalLink183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink215(stack["start"])
+	return p.cur.onExternalLink183(stack["start"])
 }
 
-func (c *current) onExternalLink204(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+func (c *current) onExternalLink166(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
-func (p *parser) callonExternalLink204() (interface{}, error) {
+func (p *parser) callonExternalLink166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink204(stack["name"], stack["start"])
+	return p.cur.onExternalLink166(stack["hidden"], stack["name"], stack["start"])
 }
 
-func (c *current) onExternalLink157(element interface{}) (interface{}, error) {
+func (c *current) onExternalLink141(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonExternalLink157() (interface{}, error) {
+func (p *parser) callonExternalLink141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink157(stack["element"])
+	return p.cur.onExternalLink141(stack["element"])
 }
 
-func (c *current) onExternalLink230() (interface{}, error) {
+func (c *current) onExternalLink198() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink230() (interface{}, error) {
+func (p *parser) callonExternalLink198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink230()
+	return p.cur.onExternalLink198()
 }
 
-func (c *current) onExternalLink226(ref interface{}) (interface{}, error) {
+func (c *current) onExternalLink194(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonExternalLink226() (interface{}, error) {
+func (p *parser) callonExternalLink194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink226(stack["ref"])
+	return p.cur.onExternalLink194(stack["ref"])
 }
 
-func (c *current) onExternalLink234() (interface{}, error) {
+func (c *current) onExternalLink202() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink234() (interface{}, error) {
+func (p *parser) callonExternalLink202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink234()
+	return p.cur.onExternalLink202()
 }
 
-func (c *current) onExternalLink137(elements interface{}) (interface{}, error) {
+func (c *current) onExternalLink121(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonExternalLink137() (interface{}, error) {
+func (p *parser) callonExternalLink121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink137(stack["elements"])
+	return p.cur.onExternalLink121(stack["elements"])
 }
 
-func (c *current) onExternalLink124(scheme, path interface{}) (interface{}, error) {
+func (c *current) onExternalLink108(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonExternalLink124() (interface{}, error) {
+func (p *parser) callonExternalLink108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink124(stack["scheme"], stack["path"])
+	return p.cur.onExternalLink108(stack["scheme"], stack["path"])
 }
 
-func (c *current) onExternalLink121(url, attributes interface{}) (interface{}, error) {
+func (c *current) onExternalLink105(url, attributes interface{}) (interface{}, error) {
 	return types.NewInlineLink(url.(*types.Location), attributes)
 
 }
 
-func (p *parser) callonExternalLink121() (interface{}, error) {
+func (p *parser) callonExternalLink105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink121(stack["url"], stack["attributes"])
+	return p.cur.onExternalLink105(stack["url"], stack["attributes"])
 }
 
 func (c *current) onListElements11() (interface{}, error) {
@@ -71744,114 +69244,62 @@ func (p *parser) callonQuotedTextElement62() (interface{}, error) {
 	return p.cur.onQuotedTextElement62(stack["name"])
 }
 
-func (c *current) onQuotedTextElement76() (interface{}, error) {
+func (c *current) onQuotedTextElement82() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement76() (interface{}, error) {
+func (p *parser) callonQuotedTextElement82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement76()
+	return p.cur.onQuotedTextElement82()
 }
 
-func (c *current) onQuotedTextElement88() (interface{}, error) {
+func (c *current) onQuotedTextElement94() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement88() (interface{}, error) {
+func (p *parser) callonQuotedTextElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement88()
+	return p.cur.onQuotedTextElement94()
 }
 
-func (c *current) onQuotedTextElement90() (interface{}, error) {
+func (c *current) onQuotedTextElement96() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement90() (interface{}, error) {
+func (p *parser) callonQuotedTextElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement90()
+	return p.cur.onQuotedTextElement96()
 }
 
-func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement89(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement83() (interface{}, error) {
+func (p *parser) callonQuotedTextElement89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement83(stack["start"])
+	return p.cur.onQuotedTextElement89(stack["start"])
 }
 
-func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onQuotedTextElement72(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonQuotedTextElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
-}
-
-func (c *current) onQuotedTextElement98() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonQuotedTextElement98() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onQuotedTextElement98()
-}
-
-func (c *current) onQuotedTextElement110() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonQuotedTextElement110() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onQuotedTextElement110()
-}
-
-func (c *current) onQuotedTextElement112() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonQuotedTextElement112() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onQuotedTextElement112()
-}
-
-func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonQuotedTextElement105() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onQuotedTextElement105(stack["start"])
-}
-
-func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonQuotedTextElement94() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement72(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
@@ -71865,92 +69313,92 @@ func (p *parser) callonQuotedTextElement47() (interface{}, error) {
 	return p.cur.onQuotedTextElement47(stack["element"])
 }
 
-func (c *current) onQuotedTextElement118() (interface{}, error) {
+func (c *current) onQuotedTextElement102() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement118() (interface{}, error) {
+func (p *parser) callonQuotedTextElement102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement118()
+	return p.cur.onQuotedTextElement102()
 }
 
-func (c *current) onQuotedTextElement124() (interface{}, error) {
+func (c *current) onQuotedTextElement108() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement124() (interface{}, error) {
+func (p *parser) callonQuotedTextElement108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement124()
+	return p.cur.onQuotedTextElement108()
 }
 
-func (c *current) onQuotedTextElement116() (interface{}, error) {
+func (c *current) onQuotedTextElement100() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement116() (interface{}, error) {
+func (p *parser) callonQuotedTextElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement116()
+	return p.cur.onQuotedTextElement100()
 }
 
-func (c *current) onQuotedTextElement133() (bool, error) {
+func (c *current) onQuotedTextElement117() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement133() (bool, error) {
+func (p *parser) callonQuotedTextElement117() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement133()
+	return p.cur.onQuotedTextElement117()
 }
 
-func (c *current) onQuotedTextElement135() (interface{}, error) {
+func (c *current) onQuotedTextElement119() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement135() (interface{}, error) {
+func (p *parser) callonQuotedTextElement119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement135()
+	return p.cur.onQuotedTextElement119()
 }
 
-func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement115(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement131() (interface{}, error) {
+func (p *parser) callonQuotedTextElement115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement131(stack["element"])
+	return p.cur.onQuotedTextElement115(stack["element"])
 }
 
-func (c *current) onQuotedTextElement141() (interface{}, error) {
+func (c *current) onQuotedTextElement125() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement141() (interface{}, error) {
+func (p *parser) callonQuotedTextElement125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement141()
+	return p.cur.onQuotedTextElement125()
 }
 
-func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement121(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement137() (interface{}, error) {
+func (p *parser) callonQuotedTextElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement137(stack["ref"])
+	return p.cur.onQuotedTextElement121(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement145() (interface{}, error) {
+func (c *current) onQuotedTextElement129() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -71959,10 +69407,10 @@ func (c *current) onQuotedTextElement145() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement145() (interface{}, error) {
+func (p *parser) callonQuotedTextElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement145()
+	return p.cur.onQuotedTextElement129()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -72810,114 +70258,62 @@ func (p *parser) callonSubscriptTextElement31() (interface{}, error) {
 	return p.cur.onSubscriptTextElement31(stack["name"])
 }
 
-func (c *current) onSubscriptTextElement45() (interface{}, error) {
+func (c *current) onSubscriptTextElement51() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSubscriptTextElement45() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement45()
+	return p.cur.onSubscriptTextElement51()
 }
 
-func (c *current) onSubscriptTextElement57() (interface{}, error) {
+func (c *current) onSubscriptTextElement63() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSubscriptTextElement57() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement57()
+	return p.cur.onSubscriptTextElement63()
 }
 
-func (c *current) onSubscriptTextElement59() (interface{}, error) {
+func (c *current) onSubscriptTextElement65() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSubscriptTextElement59() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement59()
+	return p.cur.onSubscriptTextElement65()
 }
 
-func (c *current) onSubscriptTextElement52(start interface{}) (interface{}, error) {
+func (c *current) onSubscriptTextElement58(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSubscriptTextElement52() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement52(stack["start"])
+	return p.cur.onSubscriptTextElement58(stack["start"])
 }
 
-func (c *current) onSubscriptTextElement41(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onSubscriptTextElement41(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonSubscriptTextElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement41(stack["name"], stack["start"])
-}
-
-func (c *current) onSubscriptTextElement67() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSubscriptTextElement67() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSubscriptTextElement67()
-}
-
-func (c *current) onSubscriptTextElement79() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSubscriptTextElement79() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSubscriptTextElement79()
-}
-
-func (c *current) onSubscriptTextElement81() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonSubscriptTextElement81() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSubscriptTextElement81()
-}
-
-func (c *current) onSubscriptTextElement74(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonSubscriptTextElement74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSubscriptTextElement74(stack["start"])
-}
-
-func (c *current) onSubscriptTextElement63(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonSubscriptTextElement63() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSubscriptTextElement63(stack["name"], stack["start"])
+	return p.cur.onSubscriptTextElement41(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onSubscriptTextElement16(element interface{}) (interface{}, error) {
@@ -72931,16 +70327,16 @@ func (p *parser) callonSubscriptTextElement16() (interface{}, error) {
 	return p.cur.onSubscriptTextElement16(stack["element"])
 }
 
-func (c *current) onSubscriptTextElement85() (interface{}, error) {
+func (c *current) onSubscriptTextElement69() (interface{}, error) {
 	// when it is not substituted
 	return c.text, nil
 
 }
 
-func (p *parser) callonSubscriptTextElement85() (interface{}, error) {
+func (p *parser) callonSubscriptTextElement69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement85()
+	return p.cur.onSubscriptTextElement69()
 }
 
 func (c *current) onSubscriptTextElement3(elements interface{}) (interface{}, error) {
@@ -73093,114 +70489,62 @@ func (p *parser) callonSuperscriptTextElement31() (interface{}, error) {
 	return p.cur.onSuperscriptTextElement31(stack["name"])
 }
 
-func (c *current) onSuperscriptTextElement45() (interface{}, error) {
+func (c *current) onSuperscriptTextElement51() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement45() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement45()
+	return p.cur.onSuperscriptTextElement51()
 }
 
-func (c *current) onSuperscriptTextElement57() (interface{}, error) {
+func (c *current) onSuperscriptTextElement63() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement57() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement57()
+	return p.cur.onSuperscriptTextElement63()
 }
 
-func (c *current) onSuperscriptTextElement59() (interface{}, error) {
+func (c *current) onSuperscriptTextElement65() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSuperscriptTextElement59() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement59()
+	return p.cur.onSuperscriptTextElement65()
 }
 
-func (c *current) onSuperscriptTextElement52(start interface{}) (interface{}, error) {
+func (c *current) onSuperscriptTextElement58(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement52() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement52(stack["start"])
+	return p.cur.onSuperscriptTextElement58(stack["start"])
 }
 
-func (c *current) onSuperscriptTextElement41(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onSuperscriptTextElement41(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonSuperscriptTextElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement41(stack["name"], stack["start"])
-}
-
-func (c *current) onSuperscriptTextElement67() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSuperscriptTextElement67() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSuperscriptTextElement67()
-}
-
-func (c *current) onSuperscriptTextElement79() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSuperscriptTextElement79() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSuperscriptTextElement79()
-}
-
-func (c *current) onSuperscriptTextElement81() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonSuperscriptTextElement81() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSuperscriptTextElement81()
-}
-
-func (c *current) onSuperscriptTextElement74(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonSuperscriptTextElement74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSuperscriptTextElement74(stack["start"])
-}
-
-func (c *current) onSuperscriptTextElement63(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonSuperscriptTextElement63() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSuperscriptTextElement63(stack["name"], stack["start"])
+	return p.cur.onSuperscriptTextElement41(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onSuperscriptTextElement16(element interface{}) (interface{}, error) {
@@ -73214,16 +70558,16 @@ func (p *parser) callonSuperscriptTextElement16() (interface{}, error) {
 	return p.cur.onSuperscriptTextElement16(stack["element"])
 }
 
-func (c *current) onSuperscriptTextElement85() (interface{}, error) {
+func (c *current) onSuperscriptTextElement69() (interface{}, error) {
 	// when it is not substituted
 	return c.text, nil
 
 }
 
-func (p *parser) callonSuperscriptTextElement85() (interface{}, error) {
+func (p *parser) callonSuperscriptTextElement69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement85()
+	return p.cur.onSuperscriptTextElement69()
 }
 
 func (c *current) onSuperscriptTextElement3(elements interface{}) (interface{}, error) {
@@ -73601,114 +70945,62 @@ func (p *parser) callonSectionTitleElement84() (interface{}, error) {
 	return p.cur.onSectionTitleElement84(stack["name"])
 }
 
-func (c *current) onSectionTitleElement98() (interface{}, error) {
+func (c *current) onSectionTitleElement104() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement98() (interface{}, error) {
+func (p *parser) callonSectionTitleElement104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement98()
+	return p.cur.onSectionTitleElement104()
 }
 
-func (c *current) onSectionTitleElement110() (interface{}, error) {
+func (c *current) onSectionTitleElement116() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement110() (interface{}, error) {
+func (p *parser) callonSectionTitleElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement110()
+	return p.cur.onSectionTitleElement116()
 }
 
-func (c *current) onSectionTitleElement112() (interface{}, error) {
+func (c *current) onSectionTitleElement118() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement112() (interface{}, error) {
+func (p *parser) callonSectionTitleElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement112()
+	return p.cur.onSectionTitleElement118()
 }
 
-func (c *current) onSectionTitleElement105(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement111(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement105() (interface{}, error) {
+func (p *parser) callonSectionTitleElement111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement105(stack["start"])
+	return p.cur.onSectionTitleElement111(stack["start"])
 }
 
-func (c *current) onSectionTitleElement94(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onSectionTitleElement94(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement94(stack["name"], stack["start"])
-}
-
-func (c *current) onSectionTitleElement120() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSectionTitleElement120() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement120()
-}
-
-func (c *current) onSectionTitleElement132() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSectionTitleElement132() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement132()
-}
-
-func (c *current) onSectionTitleElement134() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonSectionTitleElement134() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement134()
-}
-
-func (c *current) onSectionTitleElement127(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonSectionTitleElement127() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement127(stack["start"])
-}
-
-func (c *current) onSectionTitleElement116(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonSectionTitleElement116() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement116(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement94(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onSectionTitleElement69(element interface{}) (interface{}, error) {
@@ -73722,92 +71014,92 @@ func (p *parser) callonSectionTitleElement69() (interface{}, error) {
 	return p.cur.onSectionTitleElement69(stack["element"])
 }
 
-func (c *current) onSectionTitleElement142() (interface{}, error) {
+func (c *current) onSectionTitleElement126() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement142() (interface{}, error) {
+func (p *parser) callonSectionTitleElement126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement142()
+	return p.cur.onSectionTitleElement126()
 }
 
-func (c *current) onSectionTitleElement138(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement122(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement138() (interface{}, error) {
+func (p *parser) callonSectionTitleElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement138(stack["ref"])
+	return p.cur.onSectionTitleElement122(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement148() (bool, error) {
+func (c *current) onSectionTitleElement132() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement148() (bool, error) {
+func (p *parser) callonSectionTitleElement132() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement148()
+	return p.cur.onSectionTitleElement132()
 }
 
-func (c *current) onSectionTitleElement158() (interface{}, error) {
+func (c *current) onSectionTitleElement142() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement158() (interface{}, error) {
+func (p *parser) callonSectionTitleElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement158()
+	return p.cur.onSectionTitleElement142()
 }
 
-func (c *current) onSectionTitleElement165() (interface{}, error) {
+func (c *current) onSectionTitleElement149() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement165() (interface{}, error) {
+func (p *parser) callonSectionTitleElement149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement165()
+	return p.cur.onSectionTitleElement149()
 }
 
-func (c *current) onSectionTitleElement161(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement145(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement161() (interface{}, error) {
+func (p *parser) callonSectionTitleElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement161(stack["ref"])
+	return p.cur.onSectionTitleElement145(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement171() (bool, error) {
+func (c *current) onSectionTitleElement155() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement171() (bool, error) {
+func (p *parser) callonSectionTitleElement155() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement171()
+	return p.cur.onSectionTitleElement155()
 }
 
-func (c *current) onSectionTitleElement178() (interface{}, error) {
+func (c *current) onSectionTitleElement162() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement178() (interface{}, error) {
+func (p *parser) callonSectionTitleElement162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement178()
+	return p.cur.onSectionTitleElement162()
 }
 
-func (c *current) onSectionTitleElement174(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement158(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -73815,273 +71107,221 @@ func (c *current) onSectionTitleElement174(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement174() (interface{}, error) {
+func (p *parser) callonSectionTitleElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement174(stack["name"])
+	return p.cur.onSectionTitleElement158(stack["name"])
 }
 
-func (c *current) onSectionTitleElement188() (interface{}, error) {
+func (c *current) onSectionTitleElement172() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement188() (interface{}, error) {
+func (p *parser) callonSectionTitleElement172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement188()
+	return p.cur.onSectionTitleElement172()
 }
 
-func (c *current) onSectionTitleElement184(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement168(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement184() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement184(stack["name"])
-}
-
-func (c *current) onSectionTitleElement198() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSectionTitleElement198() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement198()
-}
-
-func (c *current) onSectionTitleElement210() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSectionTitleElement210() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement210()
-}
-
-func (c *current) onSectionTitleElement212() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonSectionTitleElement212() (interface{}, error) {
+func (p *parser) callonSectionTitleElement168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement212()
-}
-
-func (c *current) onSectionTitleElement205(start interface{}) (interface{}, error) {
-	return start, nil
-
+	return p.cur.onSectionTitleElement168(stack["name"])
 }
 
-func (p *parser) callonSectionTitleElement205() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement205(stack["start"])
-}
-
-func (c *current) onSectionTitleElement194(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
-}
-
-func (p *parser) callonSectionTitleElement194() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement194(stack["name"], stack["start"])
-}
-
-func (c *current) onSectionTitleElement220() (interface{}, error) {
+func (c *current) onSectionTitleElement188() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement220() (interface{}, error) {
+func (p *parser) callonSectionTitleElement188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement220()
+	return p.cur.onSectionTitleElement188()
 }
 
-func (c *current) onSectionTitleElement232() (interface{}, error) {
+func (c *current) onSectionTitleElement200() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement232() (interface{}, error) {
+func (p *parser) callonSectionTitleElement200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement232()
+	return p.cur.onSectionTitleElement200()
 }
 
-func (c *current) onSectionTitleElement234() (interface{}, error) {
+func (c *current) onSectionTitleElement202() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement234() (interface{}, error) {
+func (p *parser) callonSectionTitleElement202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement234()
+	return p.cur.onSectionTitleElement202()
 }
 
-func (c *current) onSectionTitleElement227(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement195(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement227() (interface{}, error) {
+func (p *parser) callonSectionTitleElement195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement227(stack["start"])
+	return p.cur.onSectionTitleElement195(stack["start"])
 }
 
-func (c *current) onSectionTitleElement216(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+func (c *current) onSectionTitleElement178(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement216() (interface{}, error) {
+func (p *parser) callonSectionTitleElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement216(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement178(stack["hidden"], stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement169(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement153(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement169() (interface{}, error) {
+func (p *parser) callonSectionTitleElement153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement169(stack["element"])
+	return p.cur.onSectionTitleElement153(stack["element"])
 }
 
-func (c *current) onSectionTitleElement238() (interface{}, error) {
+func (c *current) onSectionTitleElement206() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement238() (interface{}, error) {
+func (p *parser) callonSectionTitleElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement238()
+	return p.cur.onSectionTitleElement206()
 }
 
-func (c *current) onSectionTitleElement154(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement138(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement154() (interface{}, error) {
+func (p *parser) callonSectionTitleElement138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement154(stack["elements"])
+	return p.cur.onSectionTitleElement138(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement150(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement134(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement150() (interface{}, error) {
+func (p *parser) callonSectionTitleElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement150(stack["id"])
+	return p.cur.onSectionTitleElement134(stack["id"])
 }
 
-func (c *current) onSectionTitleElement242() (interface{}, error) {
+func (c *current) onSectionTitleElement210() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement242() (interface{}, error) {
+func (p *parser) callonSectionTitleElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement242()
+	return p.cur.onSectionTitleElement210()
 }
 
-func (c *current) onSectionTitleElement246() (interface{}, error) {
+func (c *current) onSectionTitleElement214() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement246() (interface{}, error) {
+func (p *parser) callonSectionTitleElement214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement246()
+	return p.cur.onSectionTitleElement214()
 }
 
-func (c *current) onSectionTitleElement146(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement130(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement146() (interface{}, error) {
+func (p *parser) callonSectionTitleElement130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement146(stack["id"])
+	return p.cur.onSectionTitleElement130(stack["id"])
 }
 
-func (c *current) onSectionTitleElement257() (interface{}, error) {
+func (c *current) onSectionTitleElement225() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement257() (interface{}, error) {
+func (p *parser) callonSectionTitleElement225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement257()
+	return p.cur.onSectionTitleElement225()
 }
 
-func (c *current) onSectionTitleElement253(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement221(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement253() (interface{}, error) {
+func (p *parser) callonSectionTitleElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement253(stack["id"])
+	return p.cur.onSectionTitleElement221(stack["id"])
 }
 
-func (c *current) onSectionTitleElement265() (interface{}, error) {
+func (c *current) onSectionTitleElement233() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement265() (interface{}, error) {
+func (p *parser) callonSectionTitleElement233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement265()
+	return p.cur.onSectionTitleElement233()
 }
 
-func (c *current) onSectionTitleElement261(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement229(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement261() (interface{}, error) {
+func (p *parser) callonSectionTitleElement229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement261(stack["id"])
+	return p.cur.onSectionTitleElement229(stack["id"])
 }
 
-func (c *current) onSectionTitleElement270() (interface{}, error) {
+func (c *current) onSectionTitleElement238() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -74090,10 +71330,10 @@ func (c *current) onSectionTitleElement270() (interface{}, error) {
 
 }
 
-func (p *parser) callonSectionTitleElement270() (interface{}, error) {
+func (p *parser) callonSectionTitleElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement270()
+	return p.cur.onSectionTitleElement238()
 }
 
 func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
@@ -74318,114 +71558,62 @@ func (p *parser) callonNormalGroup76() (interface{}, error) {
 	return p.cur.onNormalGroup76(stack["name"])
 }
 
-func (c *current) onNormalGroup90() (interface{}, error) {
+func (c *current) onNormalGroup96() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup90() (interface{}, error) {
+func (p *parser) callonNormalGroup96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup90()
+	return p.cur.onNormalGroup96()
 }
 
-func (c *current) onNormalGroup102() (interface{}, error) {
+func (c *current) onNormalGroup108() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup102() (interface{}, error) {
+func (p *parser) callonNormalGroup108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup102()
+	return p.cur.onNormalGroup108()
 }
 
-func (c *current) onNormalGroup104() (interface{}, error) {
+func (c *current) onNormalGroup110() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup104() (interface{}, error) {
+func (p *parser) callonNormalGroup110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup104()
+	return p.cur.onNormalGroup110()
 }
 
-func (c *current) onNormalGroup97(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup103(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup97() (interface{}, error) {
+func (p *parser) callonNormalGroup103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup97(stack["start"])
+	return p.cur.onNormalGroup103(stack["start"])
 }
 
-func (c *current) onNormalGroup86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onNormalGroup86(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonNormalGroup86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup86(stack["name"], stack["start"])
-}
-
-func (c *current) onNormalGroup112() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonNormalGroup112() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onNormalGroup112()
-}
-
-func (c *current) onNormalGroup124() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonNormalGroup124() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onNormalGroup124()
-}
-
-func (c *current) onNormalGroup126() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonNormalGroup126() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onNormalGroup126()
-}
-
-func (c *current) onNormalGroup119(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonNormalGroup119() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onNormalGroup119(stack["start"])
-}
-
-func (c *current) onNormalGroup108(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonNormalGroup108() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onNormalGroup108(stack["name"], stack["start"])
+	return p.cur.onNormalGroup86(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onNormalGroup61(element interface{}) (interface{}, error) {
@@ -74439,119 +71627,119 @@ func (p *parser) callonNormalGroup61() (interface{}, error) {
 	return p.cur.onNormalGroup61(stack["element"])
 }
 
-func (c *current) onNormalGroup136() (bool, error) {
+func (c *current) onNormalGroup120() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup136() (bool, error) {
+func (p *parser) callonNormalGroup120() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup120()
 }
 
-func (c *current) onNormalGroup138() (interface{}, error) {
+func (c *current) onNormalGroup122() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138()
+	return p.cur.onNormalGroup122()
 }
 
-func (c *current) onNormalGroup134(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup118(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup134() (interface{}, error) {
+func (p *parser) callonNormalGroup118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134(stack["element"])
+	return p.cur.onNormalGroup118(stack["element"])
 }
 
-func (c *current) onNormalGroup142() (bool, error) {
+func (c *current) onNormalGroup126() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup142() (bool, error) {
+func (p *parser) callonNormalGroup126() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup126()
 }
 
-func (c *current) onNormalGroup144() (bool, error) {
+func (c *current) onNormalGroup128() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup144() (bool, error) {
+func (p *parser) callonNormalGroup128() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup128()
 }
 
-func (c *current) onNormalGroup146() (interface{}, error) {
+func (c *current) onNormalGroup130() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup146() (interface{}, error) {
+func (p *parser) callonNormalGroup130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup146()
+	return p.cur.onNormalGroup130()
 }
 
-func (c *current) onNormalGroup150() (interface{}, error) {
+func (c *current) onNormalGroup134() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup150() (interface{}, error) {
+func (p *parser) callonNormalGroup134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup150()
+	return p.cur.onNormalGroup134()
 }
 
-func (c *current) onNormalGroup140() (interface{}, error) {
+func (c *current) onNormalGroup124() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup140() (interface{}, error) {
+func (p *parser) callonNormalGroup124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup124()
 }
 
-func (c *current) onNormalGroup161() (interface{}, error) {
+func (c *current) onNormalGroup145() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup161() (interface{}, error) {
+func (p *parser) callonNormalGroup145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup161()
+	return p.cur.onNormalGroup145()
 }
 
-func (c *current) onNormalGroup157(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup141(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonNormalGroup157() (interface{}, error) {
+func (p *parser) callonNormalGroup141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup157(stack["ref"])
+	return p.cur.onNormalGroup141(stack["ref"])
 }
 
-func (c *current) onNormalGroup165() (interface{}, error) {
+func (c *current) onNormalGroup149() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -74560,10 +71748,10 @@ func (c *current) onNormalGroup165() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup165() (interface{}, error) {
+func (p *parser) callonNormalGroup149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup165()
+	return p.cur.onNormalGroup149()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -75961,114 +73149,62 @@ func (p *parser) callonFileLocation38() (interface{}, error) {
 	return p.cur.onFileLocation38(stack["name"])
 }
 
-func (c *current) onFileLocation52() (interface{}, error) {
+func (c *current) onFileLocation58() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileLocation52() (interface{}, error) {
+func (p *parser) callonFileLocation58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation52()
+	return p.cur.onFileLocation58()
 }
 
-func (c *current) onFileLocation64() (interface{}, error) {
+func (c *current) onFileLocation70() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileLocation64() (interface{}, error) {
+func (p *parser) callonFileLocation70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation64()
+	return p.cur.onFileLocation70()
 }
 
-func (c *current) onFileLocation66() (interface{}, error) {
+func (c *current) onFileLocation72() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFileLocation66() (interface{}, error) {
+func (p *parser) callonFileLocation72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation66()
+	return p.cur.onFileLocation72()
 }
 
-func (c *current) onFileLocation59(start interface{}) (interface{}, error) {
+func (c *current) onFileLocation65(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFileLocation59() (interface{}, error) {
+func (p *parser) callonFileLocation65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation59(stack["start"])
+	return p.cur.onFileLocation65(stack["start"])
 }
 
-func (c *current) onFileLocation48(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+func (c *current) onFileLocation48(hidden, name, start interface{}) (interface{}, error) {
+	if c.text[0] == '\\' {
+		return types.NewStringElement(string(c.text[1:]))
+	}
+	return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 func (p *parser) callonFileLocation48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation48(stack["name"], stack["start"])
-}
-
-func (c *current) onFileLocation74() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonFileLocation74() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileLocation74()
-}
-
-func (c *current) onFileLocation86() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonFileLocation86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileLocation86()
-}
-
-func (c *current) onFileLocation88() (interface{}, error) {
-
-	return strconv.Atoi(string(c.text))
-
-}
-
-func (p *parser) callonFileLocation88() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileLocation88()
-}
-
-func (c *current) onFileLocation81(start interface{}) (interface{}, error) {
-	return start, nil
-
-}
-
-func (p *parser) callonFileLocation81() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileLocation81(stack["start"])
-}
-
-func (c *current) onFileLocation70(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
-}
-
-func (p *parser) callonFileLocation70() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onFileLocation70(stack["name"], stack["start"])
+	return p.cur.onFileLocation48(stack["hidden"], stack["name"], stack["start"])
 }
 
 func (c *current) onFileLocation23(element interface{}) (interface{}, error) {
@@ -76082,35 +73218,35 @@ func (p *parser) callonFileLocation23() (interface{}, error) {
 	return p.cur.onFileLocation23(stack["element"])
 }
 
-func (c *current) onFileLocation96() (interface{}, error) {
+func (c *current) onFileLocation80() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonFileLocation96() (interface{}, error) {
+func (p *parser) callonFileLocation80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation96()
+	return p.cur.onFileLocation80()
 }
 
-func (c *current) onFileLocation92(ref interface{}) (interface{}, error) {
+func (c *current) onFileLocation76(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string), string(c.text))
 }
 
-func (p *parser) callonFileLocation92() (interface{}, error) {
+func (p *parser) callonFileLocation76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation92(stack["ref"])
+	return p.cur.onFileLocation76(stack["ref"])
 }
 
-func (c *current) onFileLocation100() (interface{}, error) {
+func (c *current) onFileLocation84() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileLocation100() (interface{}, error) {
+func (p *parser) callonFileLocation84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation100()
+	return p.cur.onFileLocation84()
 }
 
 func (c *current) onFileLocation3(elements interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index c364d76..707e551 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -421,12 +421,12 @@ LegacyElementID <-
 
 // shorthand syntax for titles. Eg: `.a title`
 ShortHandTitle <- `.` 
-    ![. ] // may not start with a dot or a space, to avoid confusion with list items or literal block delimiters
+    ![. ] // may not start with a dot or a space, to avoid confusion with lists or literal blocks
     elements:(
         Alphanums
         / Space
         / Punctuation
-        / AttributeReferenceValue
+        / AttributeReferenceValue / CounterReference
         / AnyChar
     )+ {
         return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
@@ -653,14 +653,14 @@ AttributeReferenceValue <-
         return types.NewAttributeReference(name.(string), string(c.text))
     }
     
-CounterReference <- CounterSubstitution1 / CounterSubstitution2
-
-CounterSubstitution1 <- "{counter:" name:AttributeName start:(CounterStart)? "}" {
-    return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
-}
-
-CounterSubstitution2 <- "{counter2:" name:AttributeName start:(CounterStart)? "}" {
-    return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+// `{counter:name}` or `{counter:name:5}`
+// `{counter2:name}` is not displayed
+// not incremented if escaped   
+CounterReference <- `\`? "{counter" hidden:("2")? ":" name:AttributeName start:(CounterStart)? "}" {
+    if c.text[0] == '\\' {
+        return types.NewStringElement(string(c.text[1:]))
+    }
+    return types.NewCounterSubstitution(name.(string), hidden != nil, start, string(c.text))
 }
 
 CounterStart <- ":" start:([A-Za-z] {
-- 
2.43.0

